From 30ba12c8c1fb4214666ad9b8a25ecc976d7052cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:23 +0000
Subject: [PATCH 01/26] fix: simd_strcmp compared strings of different length
 as equal

It never looked at the second string's length: an 8 byte string equalled
anything, a string equalled every string it is a prefix of, and words past
the end of a shorter second string were read.
---
 src/swar.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/swar.c b/src/swar.c
index 89beccd..56343c3 100644
--- a/src/swar.c
+++ b/src/swar.c
@@ -390,11 +390,14 @@ RAII_INLINE uint64_t simd_htou(const char *s, uint32_t len) {
 
 RAII_INLINE int simd_strcmp(const char *str0, const char *str1) {
     int len = simd_strlen(str0);
-    int fast = len / sizeof(size_t) + 1;
-    int offset = (fast - 1) * sizeof(size_t);
-    int current_block = 0;
+    int len1 = simd_strlen(str1);
+
+    // Compare the bytes both strings have, including one terminator
+    len = (len < len1 ? len : len1) + 1;
 
-    if (len <= sizeof(size_t)) { fast = 0; }
+    int fast = len / sizeof(size_t);
+    int offset = fast * sizeof(size_t);
+    int current_block = 0;
 
     size_t *lstr0 = (size_t *)str0;
     size_t *lstr1 = (size_t *)str1;
-- 
2.43.0


From 072fb53c8529d81533b4154f3d38c269d7ddee91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:23 +0000
Subject: [PATCH 02/26] fix: byte search looked outside the buffer and returned
 wrong positions

The partial word was masked wrongly (bytes after the buffer could match, and
bytes inside a short one could not), the last word was never checked, the
reverse search started past the end and was off by three, and a byte that
does not occur gave a pointer 4 GB away instead of NULL.
---
 src/swar.c | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/swar.c b/src/swar.c
index 56343c3..b41d29b 100644
--- a/src/swar.c
+++ b/src/swar.c
@@ -146,11 +146,14 @@ static RAII_INLINE uint32_t _memrchr(bool Printable, bool Known, const char *s,
 
     // If shorter than 8 bytes, we have to mask away c bytes past len
     uint32_t partLen = (len & 7) ? (len & 7) : 8;
-    uint64_t partMask = len < 8 ? ~0ull >> (64 - partLen * 8) : 0ull;
-    uint64_t first = cast(p) & ~(partMask & extend(c));
+    uint64_t partMask = ~0ull >> (64 - partLen * 8);
+
+    if (len == 0)
+        return -1;
 
     // Advance to leave multiple of 8 bytes
     p -= partLen;
+    uint64_t first = (cast(p) & partMask) | (extend(c ^ 1) & ~partMask);
 
     // Check first 8 bytes
     if (hasbyte(first, c)) {
@@ -159,14 +162,14 @@ static RAII_INLINE uint32_t _memrchr(bool Printable, bool Known, const char *s,
 
     // Check words for that byte
     for (;;) {
-        if (hasbyte(cast(p), c)) {
-            return (p - s) + _memchr8(Printable, true, true, p, c);
-        }
-        p -= 8;
         if (!Known) {
             if (p == s)
                 return -1;
         }
+        p -= 8;
+        if (hasbyte(cast(p), c)) {
+            return (p - s) + _memchr8(Printable, true, true, p, c);
+        }
     }
 }
 
@@ -177,8 +180,12 @@ static RAII_INLINE uint32_t _memchr(bool Printable, bool Known, const char *s, u
 
     // If shorter than 8 bytes, we have to mask away c bytes past len
     uint32_t partLen = (len & 7) ? (len & 7) : 8;
-    uint64_t partMask = len < 8 ? ~0ull >> (64 - partLen * 8) : 0ull;
-    uint64_t first = cast(p) & ~(partMask & extend(c));
+    uint64_t partMask = ~0ull >> (64 - partLen * 8);
+
+    if (len == 0)
+        return -1;
+
+    uint64_t first = (cast(p) & partMask) | (extend(c ^ 1) & ~partMask);
 
     // Check first 8 bytes
     if (hasbyte(first, c))
@@ -189,14 +196,14 @@ static RAII_INLINE uint32_t _memchr(bool Printable, bool Known, const char *s, u
 
     // Check words for that byte
     for (;;) {
-        if (hasbyte(cast(p), c)) {
-            return (p - s) + _memchr8(Printable, true, false, p, c);
-        }
-        p += 8;
         if (!Known) {
             if (p == end)
                 return -1;
         }
+        if (hasbyte(cast(p), c)) {
+            return (p - s) + _memchr8(Printable, true, false, p, c);
+        }
+        p += 8;
     }
 }
 
@@ -496,11 +503,13 @@ RAII_INLINE size_t simd_strlen(const char *str) {
 }
 
 RAII_INLINE string simd_memchr(const char *s, uint8_t c, uint32_t len) {
-    return (char *)s + _memchr(false, false, s, len, c);
+    uint32_t at = _memchr(false, false, s, len, c);
+    return at == (uint32_t)-1 ? NULL : (char *)s + at;
 }
 
 RAII_INLINE string simd_memrchr(const char *s, uint8_t c, uint32_t len) {
-    return (char *)s + _memrchr(false, false, s, len, c) - 3;
+    uint32_t at = _memrchr(false, false, s, len, c);
+    return at == (uint32_t)-1 ? NULL : (char *)s + at;
 }
 
 // Find char in binary string. Char c is known to be in s + len
-- 
2.43.0


From 0ca81ab2a8207925861a52144ce6f77cd8a0fb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:23 +0000
Subject: [PATCH 03/26] fix: simd_itoa truncated negative numbers to 32 bits
 and read past its digits

abs() takes an int, and the copy of the digits always took 20 bytes starting
inside a 20 byte array.
---
 src/swar.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/swar.c b/src/swar.c
index b41d29b..42db172 100644
--- a/src/swar.c
+++ b/src/swar.c
@@ -274,25 +274,25 @@ RAII_INLINE uint32_t simd_itoa(int64_t x, char *buf) {
     bool neg = x < 0;
     *buf = '-'; // Always write
     buf += neg; // But advance only if negative
-    x = abs(x);
+    uint64_t u = neg ? 0 - (uint64_t)x : (uint64_t)x;
 
     char tmp[20];
     char *p = tmp + 20;
 
-    while (x >= 100) {
+    while (u >= 100) {
         p -= 2;
-        utoa2p_ex(x % 100, p);
-        x /= 100;
+        utoa2p_ex(u % 100, p);
+        u /= 100;
     }
 
     p -= 2;
-    utoa2p_ex(x, p);
+    utoa2p_ex(u, p);
 
-    p += x < 10;
+    p += u < 10;
 
     uint32_t len = tmp + 20 - p;
 
-    memcpy(buf, p, 20);
+    memcpy(buf, p, len);
     buf[len] = '\0';
 
     return len + neg;
-- 
2.43.0


From 344f51c697d6740541ed72d2b9c5334db2f39ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:40 +0000
Subject: [PATCH 04/26] fix: deferred functions could not be cancelled or fired
 by index

---
 src/raii.c | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/raii.c b/src/raii.c
index 9130d51..107419a 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -342,18 +342,20 @@ static RAII_INLINE void raii_deferred_array_free(defer_t *array) {
     raii_array_free((raii_array_t *)array);
 }
 
-static RAII_INLINE size_t raii_deferred_array_get_index(const defer_t *array, raii_array_t *elem) {
-    RAII_ASSERT(elem >= (raii_array_t *)array->base.base);
-    return (size_t)(elem - (raii_array_t *)array->base.base);
+static RAII_INLINE size_t raii_deferred_array_get_index(const defer_t *array, defer_func_t *elem) {
+    const raii_array_t *list = (const raii_array_t *)array;
+    RAII_ASSERT(elem >= (defer_func_t *)list->base);
+    return (size_t)(elem - (defer_func_t *)list->base);
 }
 
-static RAII_INLINE raii_array_t *raii_deferred_array_get_element(const defer_t *array, size_t index) {
-    RAII_ASSERT(index <= array->base.elements);
-    return &((raii_array_t *)array->base.base)[index];
+static RAII_INLINE defer_func_t *raii_deferred_array_get_element(const defer_t *array, size_t index) {
+    const raii_array_t *list = (const raii_array_t *)array;
+    RAII_ASSERT(index < list->elements);
+    return &((defer_func_t *)list->base)[index];
 }
 
 static RAII_INLINE size_t raii_deferred_array_len(const defer_t *array) {
-    return array->base.elements;
+    return ((const raii_array_t *)array)->elements;
 }
 
 static void deferred_canceled(void *data) {}
@@ -363,7 +365,7 @@ static void raii_deferred_internal(memory_t *scope, defer_func_t *deferred) {
 
     RAII_ASSERT(num_defers != 0 && deferred != NULL);
 
-    if (deferred == (defer_func_t *)raii_deferred_array_get_element(&scope->defer, num_defers - 1)) {
+    if (deferred == raii_deferred_array_get_element(&scope->defer, num_defers - 1)) {
         /* If we're cancelling the last defer we armed, there's no need to waste
          * space of a deferred callback to an empty function like
          * disarmed_defer(). */
@@ -378,18 +380,19 @@ static void raii_deferred_internal(memory_t *scope, defer_func_t *deferred) {
 void raii_deferred_cancel(memory_t *scope, size_t index) {
     RAII_ASSERT(index >= 0);
 
-    raii_deferred_internal(scope, (defer_func_t *)raii_deferred_array_get_element(&scope->defer, index));
+    raii_deferred_internal(scope, raii_deferred_array_get_element(&scope->defer, index));
 }
 
 void raii_deferred_fire(memory_t *scope, size_t index) {
     RAII_ASSERT(index >= 0);
 
-    defer_func_t *deferred = (defer_func_t *)raii_deferred_array_get_element(&scope->defer, index);
+    defer_func_t deferred = *raii_deferred_array_get_element(&scope->defer, index);
     RAII_ASSERT(scope);
 
-    deferred->func(deferred->data);
+    /* Disarm first: the function may throw, or move the array by deferring more. */
+    raii_deferred_internal(scope, raii_deferred_array_get_element(&scope->defer, index));
 
-    raii_deferred_internal(scope, deferred);
+    deferred.func(deferred.data);
 }
 
 static void raii_deferred_run(memory_t *scope, size_t generation) {
@@ -460,7 +463,7 @@ static size_t raii_deferred_any(memory_t *scope, func_t func, void *data, void *
         deferred->data = data;
         deferred->check = check;
 
-        return raii_deferred_array_get_index(&scope->defer, (raii_array_t *)deferred);
+        return raii_deferred_array_get_index(&scope->defer, deferred);
     }
 }
 
-- 
2.43.0


From 79c9cf04a7ce6c048f77e2429959712cb5346268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:09 +0000
Subject: [PATCH 05/26] fix: deferrals made while unwinding were lost, and a
 throwing one ran twice

---
 src/raii.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/raii.c b/src/raii.c
index 107419a..8536a32 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -397,21 +397,19 @@ void raii_deferred_fire(memory_t *scope, size_t index) {
 
 static void raii_deferred_run(memory_t *scope, size_t generation) {
     raii_array_t *array = (raii_array_t *)&scope->defer;
-    defer_func_t *defers = array->base;
     bool defer_ran = false;
-    size_t i;
 
     scope->is_recovered = is_empty(scope->err);
 
-    for (i = array->elements; i != generation; i--) {
-        defer_func_t *defer = &defers[i - 1];
+    /* Remove each before running it: the function may defer more or throw. */
+    while (array->elements != generation) {
+        defer_func_t defer = ((defer_func_t *)array->base)[--array->elements];
         defer_ran = true;
 
-        if (!is_empty(scope->err) && !is_empty(defer->check))
+        if (!is_empty(scope->err) && !is_empty(defer.check))
             scope->is_recovered = false;
 
-        defer->func(defer->data);
-        defer->data = NULL;
+        defer.func(defer.data);
     }
 
     if (scope->is_protected && !is_empty(scope->protector) && !is_empty(scope->err)) {
@@ -422,7 +420,6 @@ static void raii_deferred_run(memory_t *scope, size_t generation) {
         }
     }
 
-    array->elements = generation;
     if (!is_empty(scope->protector)) {
         ex_unprotected_ptr(scope->protector);
         RAII_FREE(scope->protector);
@@ -442,6 +439,7 @@ void raii_deferred_free(memory_t *scope) {
     if (is_type(&scope->defer, RAII_DEF_ARR)) {
         raii_deferred_run(scope, 0);
         raii_deferred_array_reset(&scope->defer);
+        raii_deferred_init(&scope->defer);
     }
 }
 
-- 
2.43.0


From ed9c86dba230d4c5538637dfb1a898150d042ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:35 +0000
Subject: [PATCH 06/26] fix: blocks of a scope were taken for pointers to
 blocks when an exception unwound

---
 src/future.c |  5 -----
 src/raii.c   | 26 +-------------------------
 2 files changed, 1 insertion(+), 30 deletions(-)

diff --git a/src/future.c b/src/future.c
index 53d67a6..7bba7f8 100644
--- a/src/future.c
+++ b/src/future.c
@@ -209,8 +209,6 @@ future_t thrd_scope(void) {
     pool->cpu_present = thrd_cpu_count();
     pool->futures = NULL;
     pool->results = NULL;
-    ex_protect_ptr(scope->protector, &pool->futures, RAII_FREE);
-    ex_protect_ptr(scope->protector, &pool->results, RAII_FREE);
     pool->type = RAII_SPAWN;
     spawn->arena = pool;
 
@@ -229,7 +227,6 @@ result_t thrd_spawn(thrd_func_t fn, void_t args) {
 
     promise *p = promise_create();
     future f = future_create(fn);
-    ex_protect_ptr(raii_local()->protector, &f, RAII_FREE);
     future_arg *f_arg = try_calloc(1, sizeof(future_arg));
     f_arg->func = f->func;
     f_arg->arg = args;
@@ -295,11 +292,9 @@ void thrd_then(result_func_t callback, future_t iter, void_t result) {
 void thrd_destroy(future_t f) {
     if (is_type(f, RAII_SPAWN)) {
         memory_t *scope = f->scope;
-        ex_ptr_t *err = scope->protector;
         f->type = -1;
         RAII_FREE(f->futures);
         RAII_FREE(f->results);
-        ex_unprotected_ptr(err);
         raii_delete(scope);
     }
 }
diff --git a/src/raii.c b/src/raii.c
index 8536a32..4ca968e 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -219,11 +219,6 @@ unique_t *unique_init_arena(void) {
 
 void *malloc_full(memory_t *scope, size_t size, func_t func) {
     void *arena = try_malloc(size);
-    if (is_empty(scope->protector))
-        scope->protector = try_malloc(sizeof(ex_ptr_t));
-
-    scope->protector->is_emulated = scope->is_emulated;
-    ex_protect_ptr(scope->protector, arena, func);
     scope->is_protected = true;
     scope->mid = raii_deferred(scope, func, arena);
 
@@ -247,11 +242,6 @@ RAII_INLINE void *malloc_arena(memory_t *scope, size_t size) {
 
 void *calloc_full(memory_t *scope, int count, size_t size, func_t func) {
     void *arena = try_calloc(count, size);
-    if (is_empty(scope->protector))
-        scope->protector = try_calloc(1, sizeof(ex_ptr_t));
-
-    scope->protector->is_emulated = scope->is_emulated;
-    ex_protect_ptr(scope->protector, arena, func);
     scope->is_protected = true;
     scope->mid = raii_deferred(scope, func, arena);
 
@@ -397,14 +387,11 @@ void raii_deferred_fire(memory_t *scope, size_t index) {
 
 static void raii_deferred_run(memory_t *scope, size_t generation) {
     raii_array_t *array = (raii_array_t *)&scope->defer;
-    bool defer_ran = false;
-
     scope->is_recovered = is_empty(scope->err);
 
     /* Remove each before running it: the function may defer more or throw. */
     while (array->elements != generation) {
         defer_func_t defer = ((defer_func_t *)array->base)[--array->elements];
-        defer_ran = true;
 
         if (!is_empty(scope->err) && !is_empty(defer.check))
             scope->is_recovered = false;
@@ -412,19 +399,8 @@ static void raii_deferred_run(memory_t *scope, size_t generation) {
         defer.func(defer.data);
     }
 
-    if (scope->is_protected && !is_empty(scope->protector) && !is_empty(scope->err)) {
+    if (!is_empty(scope->err))
         scope->is_protected = false;
-        if (!defer_ran) {
-            scope->protector->func(*scope->protector->ptr);
-            *scope->protector->ptr = NULL;
-        }
-    }
-
-    if (!is_empty(scope->protector)) {
-        ex_unprotected_ptr(scope->protector);
-        RAII_FREE(scope->protector);
-        scope->protector = NULL;
-    }
 }
 
 size_t raii_deferred_count(memory_t *scope) {
-- 
2.43.0


From 7d4a0884d07cdfeb68d78e33e032313b2ea06b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:04 +0000
Subject: [PATCH 07/26] fix: failing to record a deferral leaked memory or
 skipped it silently

---
 src/raii.c | 34 +++++++++++++++++++++++++++-------
 src/swar.c |  5 +----
 2 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/src/raii.c b/src/raii.c
index 4ca968e..5be65e2 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -217,10 +217,23 @@ unique_t *unique_init_arena(void) {
     return raii;
 }
 
+static size_t raii_deferred_any(memory_t *scope, func_t func, void *data, void *check);
+
+/* Bind fresh memory to scope, which is released here if the scope can't hold it. */
+static void raii_deferred_memory(memory_t *scope, func_t func, void *ptr) {
+    size_t index = raii_deferred_any(scope, func, ptr, NULL);
+    if (UNLIKELY(index == (size_t)RAII_ERR)) {
+        RAII_FREE(ptr);
+        raii_panic("Deferred allocation failed!");
+    }
+
+    scope->is_protected = true;
+    scope->mid = index;
+}
+
 void *malloc_full(memory_t *scope, size_t size, func_t func) {
     void *arena = try_malloc(size);
-    scope->is_protected = true;
-    scope->mid = raii_deferred(scope, func, arena);
+    raii_deferred_memory(scope, func, arena);
 
     return arena;
 }
@@ -242,8 +255,7 @@ RAII_INLINE void *malloc_arena(memory_t *scope, size_t size) {
 
 void *calloc_full(memory_t *scope, int count, size_t size, func_t func) {
     void *arena = try_calloc(count, size);
-    scope->is_protected = true;
-    scope->mid = raii_deferred(scope, func, arena);
+    raii_deferred_memory(scope, func, arena);
 
     return arena;
 }
@@ -441,8 +453,16 @@ static size_t raii_deferred_any(memory_t *scope, func_t func, void *data, void *
     }
 }
 
+static size_t raii_deferred_must(memory_t *scope, func_t func, void *data, void *check) {
+    size_t index = raii_deferred_any(scope, func, data, check);
+    if (UNLIKELY(index == (size_t)RAII_ERR))
+        raii_panic("Deferred allocation failed!");
+
+    return index;
+}
+
 RAII_INLINE size_t raii_deferred(memory_t *scope, func_t func, void *data) {
-    return raii_deferred_any(scope, func, data, NULL);
+    return raii_deferred_must(scope, func, data, NULL);
 }
 
 RAII_INLINE size_t raii_defer(func_t func, void *data) {
@@ -450,11 +470,11 @@ RAII_INLINE size_t raii_defer(func_t func, void *data) {
 }
 
 RAII_INLINE void raii_recover(func_t func, void *data) {
-    raii_deferred_any(raii_local(), func, data, (void *)"err");
+    raii_deferred_must(raii_local(), func, data, (void *)"err");
 }
 
 RAII_INLINE void raii_recover_by(memory_t *scope, func_t func, void *data) {
-    raii_deferred_any(scope, func, data, (void *)"err");
+    raii_deferred_must(scope, func, data, (void *)"err");
 }
 
 bool raii_caught(const char *err) {
diff --git a/src/swar.c b/src/swar.c
index 42db172..3a0b9e5 100644
--- a/src/swar.c
+++ b/src/swar.c
@@ -686,7 +686,7 @@ string str_concat_ex(memory_t *defer, int num_args, va_list ap_copy) {
     for (i = 0; i < num_args; i++)
         strsize += simd_strlen(va_arg(ap, string));
 
-    string res = try_calloc(1, strsize + 1);
+    string res = defer ? calloc_full(defer, 1, strsize + 1, RAII_FREE) : try_calloc(1, strsize + 1);
     strsize = 0;
 
     va_copy(ap, ap_copy);
@@ -697,9 +697,6 @@ string str_concat_ex(memory_t *defer, int num_args, va_list ap_copy) {
     }
     va_end(ap);
 
-    if (defer)
-        raii_deferred(defer, RAII_FREE, res);
-
     return res;
 }
 
-- 
2.43.0


From 1c9e7bb910c625ecf4e22bdc6c3a5d9b84409a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:04 +0000
Subject: [PATCH 08/26] fix: default scope functions crashed on a thread that
 had no scope yet

---
 src/raii.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/raii.c b/src/raii.c
index 5be65e2..3389172 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -194,7 +194,7 @@ RAII_INLINE u_string raii_encode64(u_string_t src) {
 }
 
 RAII_INLINE u_string raii_decode64(u_string_t src) {
-    return str_decode64_ex(raii_local(), src);
+    return str_decode64_ex(raii_init(), src);
 }
 
 unique_t *unique_init(void) {
@@ -432,7 +432,7 @@ void raii_deferred_free(memory_t *scope) {
 }
 
 RAII_INLINE void raii_deferred_clean(void) {
-    raii_deferred_free(raii_local());
+    raii_deferred_free(raii_init());
 }
 
 static size_t raii_deferred_any(memory_t *scope, func_t func, void *data, void *check) {
@@ -466,11 +466,11 @@ RAII_INLINE size_t raii_deferred(memory_t *scope, func_t func, void *data) {
 }
 
 RAII_INLINE size_t raii_defer(func_t func, void *data) {
-    return raii_deferred(raii_local(), func, data);
+    return raii_deferred(raii_init(), func, data);
 }
 
 RAII_INLINE void raii_recover(func_t func, void *data) {
-    raii_deferred_must(raii_local(), func, data, (void *)"err");
+    raii_deferred_must(raii_init(), func, data, (void *)"err");
 }
 
 RAII_INLINE void raii_recover_by(memory_t *scope, func_t func, void *data) {
@@ -478,7 +478,7 @@ RAII_INLINE void raii_recover_by(memory_t *scope, func_t func, void *data) {
 }
 
 bool raii_caught(const char *err) {
-    memory_t *scope = raii_local();
+    memory_t *scope = raii_init();
     const char *exception = (const char *)(!is_empty((void *)scope->panic) ? scope->panic : scope->err);
 
     if (exception == NULL && is_str_eq(err, ex_local()->ex)) {
@@ -501,7 +501,7 @@ bool raii_is_caught(memory_t *scope, const char *err) {
 }
 
 const char *raii_message(void) {
-    memory_t *scope = raii_local();
+    memory_t *scope = raii_init();
     const char *exception = (const char *)(!is_empty((void *)scope->panic) ? scope->panic : scope->err);
     return exception == NULL ? ex_local()->ex : exception;
 }
-- 
2.43.0


From 9d35f1c37dca99b41c4739956c874712e6d976c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:44 +0000
Subject: [PATCH 09/26] fix: guard handlers leaked into other threads and into
 try blocks inside the guard

---
 include/raii.h |  9 +++++++--
 src/except.c   | 24 ++++++++++++------------
 src/raii.c     | 13 ++++++++-----
 3 files changed, 27 insertions(+), 19 deletions(-)

diff --git a/include/raii.h b/include/raii.h
index 2bb3d15..3155b8f 100644
--- a/include/raii.h
+++ b/include/raii.h
@@ -535,12 +535,11 @@ are only valid between these sections.
     void *s##__FUNCTION__ = raii_init()->arena;         \
     ex_setup_func sf##__FUNCTION__ = exception_setup_func;      \
     ex_unwind_func uf##__FUNCTION__ = exception_unwind_func;    \
-    exception_unwind_func = (ex_unwind_func)raii_deferred_free; \
-    exception_setup_func = guard_set;                   \
     unique_t *_$##__FUNCTION__ = unique_init();         \
     (_$##__FUNCTION__)->status = RAII_GUARDED_STATUS;   \
     raii_local()->arena = (void *)_$##__FUNCTION__;     \
     ex_try {                                            \
+        ex_err.is_guarded = true;                       \
         do {
 
     /* This ends an scoped guard section, it replaces `}`.
@@ -550,8 +549,10 @@ are only valid between these sections.
             } while (false);                                        \
             raii_deferred_free(_$##__FUNCTION__);                   \
     } ex_catch_if {                                                 \
+        ex_err.unstack = 1;                                         \
         if ((is_type(&(_$##__FUNCTION__)->defer, RAII_DEF_ARR)))    \
             raii_deferred_free(_$##__FUNCTION__);                   \
+        ex_err.unstack = 0;                                         \
     } ex_finally {                                                  \
         guard_reset(s##__FUNCTION__, sf##__FUNCTION__, uf##__FUNCTION__);   \
         guard_delete(_$##__FUNCTION__);                             \
@@ -565,7 +566,9 @@ are only valid between these sections.
         } while (false);                                            \
         raii_deferred_free(_$##__FUNCTION__);                       \
     } ex_catch_if {                                                 \
+        ex_err.unstack = 1;                                         \
         raii_deferred_free(_$##__FUNCTION__);                       \
+        ex_err.unstack = 0;                                         \
     } ex_finally {                                                  \
         guard_reset(s##__FUNCTION__, sf##__FUNCTION__, uf##__FUNCTION__);   \
         guard_delete(_$##__FUNCTION__);                             \
@@ -580,7 +583,9 @@ are only valid between these sections.
         } while (false);                                            \
         raii_deferred_free(_$##__FUNCTION__);                       \
     } ex_catch_if {                                                 \
+        ex_err.unstack = 1;                                         \
         raii_deferred_free(_$##__FUNCTION__);                       \
+        ex_err.unstack = 0;                                         \
         if (!_$##__FUNCTION__->is_recovered && raii_is_caught(_$##__FUNCTION__, raii_message_by(_$##__FUNCTION__))) { \
             ((memory_t *)error)->err = (void_t)ex_err.ex;                   \
             ((memory_t *)error)->panic = ex_err.panic;              \
diff --git a/src/except.c b/src/except.c
index 088d247..761280a 100644
--- a/src/except.c
+++ b/src/except.c
@@ -376,6 +376,15 @@ void ex_terminate(void) {
         exit(EXIT_FAILURE);
 }
 
+static void ex_setup(ex_context_t *ctx) {
+    if (ctx->is_guarded)
+        guard_set(ctx, ctx->ex, ctx->panic);
+    else if (exception_setup_func)
+        exception_setup_func(ctx, ctx->ex, ctx->panic);
+    else if (ctx->is_raii)
+        raii_unwind_set(ctx, ctx->ex, ctx->panic);
+}
+
 void ex_throw(string_t exception, string_t file, int line, string_t function, string_t message, ex_backtrace_t *dump) {
     ex_context_t *ctx = ex_init();
 
@@ -393,10 +402,7 @@ void ex_throw(string_t exception, string_t file, int line, string_t function, st
     ctx->function = function;
     ctx->panic = message;
 
-    if (exception_setup_func)
-        exception_setup_func(ctx, ctx->ex, ctx->panic);
-    else if (ctx->is_raii)
-        raii_unwind_set(ctx, ctx->ex, ctx->panic);
+    ex_setup(ctx);
 
     ex_unwind_stack(ctx);
     ex_signal_unblock(all);
@@ -455,10 +461,7 @@ int catch_seh(const char *exception, DWORD code, struct _EXCEPTION_POINTERS *ep)
                 ctx->function = NULL;
             }
 
-            if (exception_setup_func)
-                exception_setup_func(ctx, ctx->ex, ctx->panic);
-            else if (ctx->is_raii)
-                raii_unwind_set(ctx, ctx->ex, ctx->panic);
+            ex_setup(ctx);
             return EXCEPTION_EXECUTE_HANDLER;
         }
     }
@@ -487,10 +490,7 @@ int catch_filter_seh(DWORD code, struct _EXCEPTION_POINTERS *ep) {
             ctx->line = 0;
             ctx->function = NULL;
 
-            if (exception_setup_func)
-                exception_setup_func(ctx, ctx->ex, ctx->panic);
-            else if (ctx->is_raii)
-                raii_unwind_set(ctx, ctx->ex, ctx->panic);
+            ex_setup(ctx);
 
             if (!ctx->is_guarded || ctx->is_raii)
                 ex_unwind_stack(ctx);
diff --git a/src/raii.c b/src/raii.c
index 3389172..6e494f0 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -522,17 +522,20 @@ void guard_set(ex_context_t *ctx, const char *ex, const char *message) {
     memory_t *scope = raii_local()->arena;
     scope->err = (void *)ex;
     scope->panic = message;
-    ctx->is_guarded = true;
     ex_swap_set(ctx, (void *)scope);
-    ex_unwind_set(ctx, scope->is_protected);
+    /* The guard section runs the deferrals itself, once control is back in it. */
+    ex_unwind_set(ctx, false);
 }
 
 void guard_reset(void *scope, ex_setup_func set, ex_unwind_func unwind) {
     raii_local()->arena = scope;
     ex_swap_reset(ex_local());
-    ex_local()->is_guarded = false;
-    exception_setup_func = set;
-    exception_unwind_func = unwind;
+    /* Shared by all threads, so written only when the section changed them. */
+    if (exception_setup_func != set)
+        exception_setup_func = set;
+
+    if (exception_unwind_func != unwind)
+        exception_unwind_func = unwind;
 }
 
 void guard_delete(memory_t *ptr) {
-- 
2.43.0


From 427c7eb42d79375ca25b6050283695a21fdd38b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:46 +0000
Subject: [PATCH 10/26] fix: a try block left fields of its context
 uninitialised that throwing reads

---
 include/exception.h | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/include/exception.h b/include/exception.h
index 7ced475..5effd12 100644
--- a/include/exception.h
+++ b/include/exception.h
@@ -228,6 +228,14 @@ throws an exception of given message. */
     ex_err.ex = 0;                          \
     ex_err.unstack = 0;                     \
     ex_err.is_rethrown = false;             \
+    ex_err.panic = 0;                       \
+    ex_err.data = 0;                        \
+    ex_err.prev = 0;                        \
+    ex_err.caught = -1;                     \
+    ex_err.is_unwind = false;               \
+    ex_err.is_guarded = false;              \
+    ex_err.is_raii = false;                 \
+    ex_err.is_emulated = false;             \
     /* global context updated */            \
     ex_update(&ex_err);                     \
     /* save jump location */                \
@@ -304,6 +312,15 @@ throws an exception of given message. */
     ex_err.stack = 0;                       \
     ex_err.ex = 0;                          \
     ex_err.unstack = 0;                     \
+    ex_err.is_rethrown = false;             \
+    ex_err.panic = 0;                       \
+    ex_err.data = 0;                        \
+    ex_err.prev = 0;                        \
+    ex_err.caught = -1;                     \
+    ex_err.is_unwind = false;               \
+    ex_err.is_guarded = false;              \
+    ex_err.is_raii = false;                 \
+    ex_err.is_emulated = false;             \
     /* global context updated */            \
     ex_update(&ex_err);                     \
     /* save jump location */                \
-- 
2.43.0


From d419cc55d5a7610b74359e626bd4d648b4e8bd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:47 +0000
Subject: [PATCH 11/26] fix: a scope first used inside a try block was tied to
 that block

---
 src/raii.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/raii.c b/src/raii.c
index 6e494f0..bdfe594 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -115,7 +115,11 @@ memory_t *raii_init(void) {
         scope->is_recovered = false;
         scope->mid = -1;
 
+        /* The scope outlives any try block, it belongs to the thread's own context. */
         ex_context_t *ctx = ex_init();
+        while (!is_empty(ctx->next))
+            ctx = ctx->next;
+
         ctx->data = (void *)scope;
         ctx->prev = (void *)scope;
         ctx->is_raii = true;
-- 
2.43.0


From 6447003106260d71592fea2e955e8b35152f90fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:47 +0000
Subject: [PATCH 12/26] fix: unwinding stopped at the first protected pointer
 that was NULL

---
 src/except.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/except.c b/src/except.c
index 761280a..674b57f 100644
--- a/src/except.c
+++ b/src/except.c
@@ -105,7 +105,6 @@ void ex_unprotected_ptr(ex_ptr_t *const_ptr) {
 
 static void ex_unwind_stack(ex_context_t *ctx) {
     ex_ptr_t *p = ctx->stack;
-    void *temp = NULL;
 
     ctx->unstack = 1;
 
@@ -115,15 +114,11 @@ static void ex_unwind_stack(ex_context_t *ctx) {
         raii_deferred_clean();
     } else {
         while (p && p->type == ex_protected_st) {
-            if ((got_uncaught_exception = (temp == *p->ptr)))
-                break;
-
             if (*p->ptr) {
                 p->type = -1;
                 p->func(*p->ptr);
             }
 
-            temp = *p->ptr;
             p = p->next;
         }
     }
-- 
2.43.0


From 5326e2503dba12d4dfc4e80514fa5950e426ec15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:46 +0000
Subject: [PATCH 13/26] fix: simd_atod scaled the fraction by ten too much and
 lost the sign of -0.x

---
 src/swar.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/swar.c b/src/swar.c
index 3a0b9e5..59e7baf 100644
--- a/src/swar.c
+++ b/src/swar.c
@@ -547,6 +547,8 @@ RAII_INLINE uint32_t pmemrchrk(const char *s, uint32_t len, uint8_t c) {
 // *** More than 20 char integer part returns junk.
 // *** Too much decimal char will get lost to precision
 RAII_INLINE double simd_atod(const char *s, uint32_t len) {
+    bool neg = !!len & (*s == '-');
+
     // Get int part
     int ilen = pmemchr(s, len, '.');
 
@@ -563,15 +565,16 @@ RAII_INLINE double simd_atod(const char *s, uint32_t len) {
     // Int of decimal part
     int64_t dpart = simd_atou(s, len);
 
-    // To add the two parts we need matching signs
-    dpart = _copySign(ipart, dpart);
+    // To add the two parts we need matching signs. "-0" has no sign as int
+    if (neg)
+        dpart = -dpart;
 
     // Array of 20 * 8 = 160 bytes
     static const CODE_SECTION double scales[20] = {
         1e-1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9, 1e-10,
         1e-11, 1e-12, 1e-13, 1e-14, 1e-15, 1e-16, 1e-17, 1e-18, 1e-19, 1e-20};
 
-    return ipart + dpart * scales[len];
+    return len ? ipart + dpart * scales[len - 1] : ipart;
 }
 
 // Convert uint to %0<N>u, N <= 8
-- 
2.43.0


From 69204d171c8f4d8130dd14f3d678b5205b78dd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:18 +0000
Subject: [PATCH 14/26] fix: arena_alloc returned NULL or a short block when
 memory ran out or sizes overflowed

---
 src/arena.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/arena.c b/src/arena.c
index 1459b31..1e8edf7 100644
--- a/src/arena.c
+++ b/src/arena.c
@@ -49,6 +49,9 @@ void *arena_alloc(arena_t arena, long nbytes) {
         raii_panic("Bad block, `NULL` detected!");
 
     RAII_ASSERT(nbytes > 0);
+    if (nbytes == LONG_MAX)
+        raii_panic("Arena allocation too large!");
+
     nbytes = align_up(nbytes, sizeof(u16));
     while (nbytes > arena->limit - arena->avail) {
         arena_t ptr;
@@ -58,18 +61,23 @@ void *arena_alloc(arena_t arena, long nbytes) {
             num_free--;
             limit = ptr->limit;
         } else {
+            size_t room = (size_t)LONG_MAX - sizeof(union header) - sizeof(u16) - arena->total;
+            if (arena->threshold > room / 1024 || (size_t)nbytes > room - arena->threshold * 1024)
+                raii_panic("Arena allocation too large!");
+
             long m = align_up(sizeof(union header) + nbytes + arena->threshold * 1024, sizeof(u16));
-            arena->total += m;
             if (arena->is_global)
-                ptr = RAII_REALLOC(arena->base, arena->total);
+                ptr = RAII_REALLOC(arena->base, arena->total + m);
             else
-                ptr = RAII_MALLOC(arena->total);
+                ptr = RAII_MALLOC(arena->total + m);
 
             if (ptr == NULL) {
                 errno = ENOMEM;
-                return NULL;
+                raii_panic("Arena allocation failed!");
             }
 
+            arena->total += m;
+
             if (arena->is_global) {
                 arena->base = ptr;
                 limit = (char *)arena->base + arena->total;
@@ -99,6 +107,9 @@ void *arena_alloc(arena_t arena, long nbytes) {
 
 void *arena_calloc(arena_t arena, long count, long nbytes) {
     RAII_ASSERT(count > 0);
+    if (nbytes > 0 && count > LONG_MAX / nbytes)
+        raii_panic("Arena allocation too large!");
+
     void *ptr = arena_alloc(arena, count * nbytes);
     memset(ptr, 0, count * nbytes);
     return ptr;
-- 
2.43.0


From 2f5b6d6d8d82f1cf3658155970a1b64d85b42ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:15 +0000
Subject: [PATCH 15/26] fix: clearing an arena kept using chunks it had given
 up

---
 src/arena.c | 45 ++++++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/src/arena.c b/src/arena.c
index 1e8edf7..62300b6 100644
--- a/src/arena.c
+++ b/src/arena.c
@@ -27,16 +27,37 @@ arena_t arena_init(size_t threshold) {
     return arena;
 }
 
+/* Gives up every chunk, those within `keep` are kept for reuse,
+each chunk holds the state the arena had before it. */
+static void arena_release(arena_t arena, int keep) {
+    while (!arena->is_global && arena->next && is_type(arena->next, RAII_ARENA)) {
+        arena_t ptr = arena->next;
+        struct arena_s tmp = *ptr;
+        if (num_free < keep) {
+            ptr->next = free_list;
+            ptr->limit = arena->limit;
+            free_list = ptr;
+            num_free++;
+        } else {
+            memset(ptr, -1, sizeof(arena_t));
+            RAII_FREE(ptr);
+        }
+
+        *arena = tmp;
+        arena->type = RAII_ARENA + RAII_STRUCT;
+        arena->base = NULL;
+    }
+}
+
 void arena_free(arena_t arena) {
     if (is_empty(arena))
         return;
 
     if (is_type(arena, RAII_ARENA + RAII_STRUCT)) {
-        num_free += (int)arena->threshold + 1;
         if (arena->is_global)
             RAII_FREE(arena->base);
         else
-            arena_clear(arena);
+            arena_release(arena, 0);
 
         memset(arena, -1, sizeof(arena_t));
         RAII_FREE(arena);
@@ -119,25 +140,7 @@ void arena_clear(arena_t arena) {
     if (is_empty(arena))
         return;
 
-    while (!arena->is_global && arena->next && is_type(arena->next, RAII_ARENA)) {
-        arena_t tmp = arena->next;
-        if (num_free < (int)arena->threshold) {
-            arena->next->next = free_list;
-            free_list = arena->next;
-            num_free++;
-            free_list->limit = arena->limit;
-            if (is_zero(free_list->bytes))
-                arena->avail -= arena->bytes;
-            else
-                arena->avail -= free_list->bytes;
-        } else {
-            memset(arena->next, -1, sizeof(arena_t));
-            RAII_FREE(arena->next);
-            arena->next = NULL;
-        }
-
-        arena = tmp;
-    }
+    arena_release(arena, (int)arena->threshold);
 }
 
 void arena_print(const arena_t arena) {
-- 
2.43.0


From 87479f174ffc65c6e5bcca54a875ed1a9869c8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:16 +0000
Subject: [PATCH 16/26] fix: argument sets lost long strings and crashed on
 pointers

---
 src/raii.c | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/src/raii.c b/src/raii.c
index bdfe594..7dc9aa5 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -595,10 +595,8 @@ RAII_INLINE values_type args_in(args_t params, size_t index) {
 }
 
 args_t raii_args_ex(memory_t *scope, const char *desc, va_list argp) {
-    size_t i, len, count = simd_strlen(desc);
+    size_t i, count = simd_strlen(desc);
     args_t params = try_calloc(1, sizeof(struct args_s));
-    void_t p;
-    string s;
     params->args_size = sizeof(raii_values_t);
     params->args = try_calloc(count, params->args_size);
     params->args_size = params->args_size * count;
@@ -631,15 +629,7 @@ args_t raii_args_ex(memory_t *scope, const char *desc, va_list argp) {
                 break;
             case 's':
                 // string argument
-                s = (char *)va_arg(argp, char *);
-                len = simd_strlen(s);
-                if (len > sizeof(raii_values_t)) {
-                    params->args_size += len + 1;
-                    params->args = try_realloc(params->args, params->args_size);
-                    strncpy(params->args[i].value.char_ptr, s, len);
-                } else {
-                    params->args[i].value.char_ptr = s;
-                }
+                params->args[i].value.char_ptr = (char *)va_arg(argp, char *);
                 break;
             case 'a':
                 // array argument
@@ -655,13 +645,8 @@ args_t raii_args_ex(memory_t *scope, const char *desc, va_list argp) {
                 break;
             case 'p':
                 // void pointer (any arbitrary pointer) argument
-                params->args[i].value.object = va_arg(argp, void *);
             default:
-                p = va_arg(argp, void *);
-                len = sizeof(p);
-                params->args_size += len;
-                params->args = try_realloc(params->args, params->args_size);
-                memcpy(params->args[i].value.object, p, sizeof(p));
+                params->args[i].value.object = va_arg(argp, void *);
                 break;
         }
     }
-- 
2.43.0


From ed8cb85ae41b6ce069f78fab99f217d92b00924c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:17 +0000
Subject: [PATCH 17/26] fix: memory was lost when an allocation failed halfway
 through arena scopes and argument sets

---
 src/raii.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/raii.c b/src/raii.c
index 7dc9aa5..22d551f 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -214,8 +214,17 @@ unique_t *unique_init(void) {
 }
 
 unique_t *unique_init_arena(void) {
-    unique_t *raii = unique_init();
-    raii->arena = (void *)arena_init(0);
+    arena_t arena = arena_init(0);
+    unique_t *raii = RAII_CALLOC(1, sizeof(unique_t));
+    if (UNLIKELY(raii == NULL)) {
+        arena_free(arena);
+        errno = ENOMEM;
+        raii_panic("Calloc failed!");
+    }
+
+    raii_deferred_init(&raii->defer);
+    raii->mid = -1;
+    raii->arena = (void *)arena;
     raii->is_arena = true;
 
     return raii;
@@ -570,11 +579,11 @@ values_type raii_get_args(memory_t *scope, void_t params, int item) {
     args_t args = (args_t)params;
     memory_t *scoped = scope;
     if (!args->defer_set) {
-        args->defer_set = true;
         if (is_empty(scope))
             scoped = is_empty(args->context) ? raii_init() : args->context;
 
         raii_deferred(scoped, (func_t)args_free, params);
+        args->defer_set = true;
     }
 
     return args_in(args, item);
@@ -598,7 +607,13 @@ args_t raii_args_ex(memory_t *scope, const char *desc, va_list argp) {
     size_t i, count = simd_strlen(desc);
     args_t params = try_calloc(1, sizeof(struct args_s));
     params->args_size = sizeof(raii_values_t);
-    params->args = try_calloc(count, params->args_size);
+    params->args = RAII_CALLOC(count, params->args_size);
+    if (UNLIKELY(params->args == NULL)) {
+        RAII_FREE(params);
+        errno = ENOMEM;
+        raii_panic("Calloc failed!");
+    }
+
     params->args_size = params->args_size * count;
 
     for (i = 0; i < count; i++) {
-- 
2.43.0


From 4b357bace1bfe9e77c24cd513b259c65cc703738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:41 +0000
Subject: [PATCH 18/26] fix: a throw in a catch_if section entered that section
 again

---
 include/exception.h | 4 ++++
 src/except.c        | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/include/exception.h b/include/exception.h
index 5effd12..a00ad83 100644
--- a/include/exception.h
+++ b/include/exception.h
@@ -236,6 +236,7 @@ throws an exception of given message. */
     ex_err.is_guarded = false;              \
     ex_err.is_raii = false;                 \
     ex_err.is_emulated = false;             \
+    ex_err.is_handling = false;             \
     /* global context updated */            \
     ex_update(&ex_err);                     \
     /* save jump location */                \
@@ -321,6 +322,7 @@ throws an exception of given message. */
     ex_err.is_guarded = false;              \
     ex_err.is_raii = false;                 \
     ex_err.is_emulated = false;             \
+    ex_err.is_handling = false;             \
     /* global context updated */            \
     ex_update(&ex_err);                     \
     /* save jump location */                \
@@ -345,6 +347,7 @@ throws an exception of given message. */
     {                                \
         {                            \
             EX_MAKE();               \
+            ex_err.is_handling = true;
 
 #define ex_finally                          \
     }                                    \
@@ -400,6 +403,7 @@ struct ex_context_s {
     bool is_guarded;
     bool is_raii;
     bool is_emulated;
+    bool is_handling;
     int unstack;
     int volatile caught;
 
diff --git a/src/except.c b/src/except.c
index 674b57f..b21a762 100644
--- a/src/except.c
+++ b/src/except.c
@@ -332,6 +332,7 @@ ex_context_t *ex_init(void) {
         context->is_guarded = false;
         context->is_raii = false;
         context->is_emulated = false;
+        context->is_handling = false;
         context->ex = NULL;
         context->panic = NULL;
         memset(context->backtrace->ctx, 0, sizeof(context->backtrace->ctx));
@@ -412,6 +413,10 @@ void ex_throw(string_t exception, string_t file, int line, string_t function, st
 #ifdef _WIN32
     RaiseException(EXCEPTION_PANIC, 0, 0, NULL);
 #endif
+    /* Raised in a `catch_if` section, leave it for the enclosing block, don't enter it again. */
+    if (ctx->is_handling)
+        ctx->state |= ex_catch_st;
+
     ex_longjmp(ctx->buf, ctx->state | ex_throw_st);
 }
 
-- 
2.43.0


From e93a99f50937a4d1202237214c45ff76db78e282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:27 +0000
Subject: [PATCH 19/26] fix: empty results and arguments of threads were
 dereferenced

---
 src/future.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/future.c b/src/future.c
index 7bba7f8..44fee96 100644
--- a/src/future.c
+++ b/src/future.c
@@ -78,7 +78,7 @@ static int thrd_raii_wrapper(void_t arg) {
         res = f->func((args_t)f->arg);
     } guarded_exception(f->value->scope);
 
-    promise_set(f->value, res, (is_type(f->arg, RAII_ARGS) && ((args_t)f->arg)->is_returning));
+    promise_set(f->value, res, (!is_empty(f->arg) && is_type(f->arg, RAII_ARGS) && ((args_t)f->arg)->is_returning));
     if (is_type(f, RAII_FUTURE_ARG)) {
         memset(f, 0, sizeof(f));
         RAII_FREE(f);
@@ -113,8 +113,10 @@ values_type thrd_get(future f) {
         raii_values_t *r = promise_get(f->value);
         future_close(f);
         promise_close(f->value);
-        if (is_empty(r))
-            return thrd_value(0)->value;
+        if (is_empty(r)) {
+            values_type none = {0};
+            return none;
+        }
 
         return r->value;
     }
@@ -263,13 +265,13 @@ future_t thrd_sync(future_t v) {
     memory_t *scope = v->scope;
     for (i = 0; i < v->thread_count; i++) {
         raii_values_t *result = promise_get(v->futures[i]->value);
-        size_t size = result->size;
+        size_t size = is_empty(result) ? 0 : result->size;
         v->results[i]->result = (raii_values_t *)calloc_full(scope, 1, sizeof(raii_values_t), RAII_FREE);
         if (size > 0) {
             v->results[i]->result->extended = calloc_full(scope, 1, size, RAII_FREE);
             memcpy(v->results[i]->result->extended, result->extended, size);
             v->results[i]->result->value.object = v->results[i]->result->extended;
-        } else {
+        } else if (!is_empty(result)) {
             v->results[i]->result->value.array = result->value.array;
         }
 
-- 
2.43.0


From a8850489f0089e096d032b6017da4ed224b4e013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:49 +0000
Subject: [PATCH 20/26] fix: futures and thread scopes were used after they
 were released

---
 src/future.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/future.c b/src/future.c
index 44fee96..517dcec 100644
--- a/src/future.c
+++ b/src/future.c
@@ -110,9 +110,10 @@ future thrd_async(thrd_func_t fn, void_t args) {
 
 values_type thrd_get(future f) {
     if (is_type(f, RAII_FUTURE) && !is_empty(f->value) && is_type(f->value, RAII_PROMISE)) {
-        raii_values_t *r = promise_get(f->value);
+        promise *p = f->value;
+        raii_values_t *r = promise_get(p);
         future_close(f);
-        promise_close(f->value);
+        promise_close(p);
         if (is_empty(r)) {
             values_type none = {0};
             return none;
@@ -264,7 +265,13 @@ future_t thrd_sync(future_t v) {
     int i, x;
     memory_t *scope = v->scope;
     for (i = 0; i < v->thread_count; i++) {
-        raii_values_t *result = promise_get(v->futures[i]->value);
+        future f = v->futures[i];
+        /* Already collected by an earlier call. */
+        if (is_empty(f))
+            continue;
+
+        promise *p = f->value;
+        raii_values_t *result = promise_get(p);
         size_t size = is_empty(result) ? 0 : result->size;
         v->results[i]->result = (raii_values_t *)calloc_full(scope, 1, sizeof(raii_values_t), RAII_FREE);
         if (size > 0) {
@@ -276,8 +283,9 @@ future_t thrd_sync(future_t v) {
         }
 
         v->results[i]->is_ready = true;
-        future_close(v->futures[i]);
-        promise_close(v->futures[i]->value);
+        v->futures[i] = NULL;
+        future_close(f);
+        promise_close(p);
     }
 
     raii_deferred_clean();
@@ -294,6 +302,9 @@ void thrd_then(result_func_t callback, future_t iter, void_t result) {
 void thrd_destroy(future_t f) {
     if (is_type(f, RAII_SPAWN)) {
         memory_t *scope = f->scope;
+        if (raii_local()->arena == (void *)f)
+            raii_local()->arena = NULL;
+
         f->type = -1;
         RAII_FREE(f->futures);
         RAII_FREE(f->results);
@@ -304,7 +315,7 @@ void thrd_destroy(future_t f) {
 RAII_INLINE bool thrd_is_finish(future_t f) {
     size_t i;
     for (i = 0; i < f->thread_count; i++) {
-        if (!thrd_is_done(f->futures[i]))
+        if (!is_empty(f->futures[i]) && !thrd_is_done(f->futures[i]))
             return false;
     }
 
-- 
2.43.0


From 3fcb457cae4c538efcff35d25f7750c920f06bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:14 +0000
Subject: [PATCH 21/26] fix: errors of threads were kept in the creating scope,
 mixing up futures

---
 include/raii.h | 8 +++++---
 src/future.c   | 9 ++++-----
 src/raii.c     | 2 +-
 3 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/raii.h b/include/raii.h
index 3155b8f..0b56a0c 100644
--- a/include/raii.h
+++ b/include/raii.h
@@ -199,6 +199,8 @@ typedef struct _promise {
     atomic_spinlock mutex;
     memory_t *scope;
     raii_values_t *result;
+    /* The exception that ended the thread's function. */
+    memory_t failed[1];
 } promise;
 
 typedef struct {
@@ -586,10 +588,10 @@ are only valid between these sections.
         ex_err.unstack = 1;                                         \
         raii_deferred_free(_$##__FUNCTION__);                       \
         ex_err.unstack = 0;                                         \
-        if (!_$##__FUNCTION__->is_recovered && raii_is_caught(_$##__FUNCTION__, raii_message_by(_$##__FUNCTION__))) { \
-            ((memory_t *)error)->err = (void_t)ex_err.ex;                   \
+        if (ex_err.state == ex_throw_st) {                          \
+            ex_err.state = ex_catch_st;                             \
+            ((memory_t *)error)->err = (void_t)ex_err.ex;           \
             ((memory_t *)error)->panic = ex_err.panic;              \
-            ((memory_t *)error)->backtrace = ex_err.backtrace;      \
         }                                                           \
     } ex_finally{\
         guard_reset(s##__FUNCTION__, sf##__FUNCTION__, uf##__FUNCTION__);   \
diff --git a/src/future.c b/src/future.c
index 517dcec..3c907b6 100644
--- a/src/future.c
+++ b/src/future.c
@@ -47,8 +47,8 @@ static void promise_close(promise *p) {
         p->type = -1;
         atomic_flag_clear(&p->mutex);
         atomic_flag_clear(&p->done);
-        if (!is_empty(p->scope->err))
-            ex_throw(p->scope->err, "unknown", 0, "thrd_raii_wrapper", p->scope->panic, p->scope->backtrace);
+        if (!is_empty(p->failed->err))
+            ex_throw(p->failed->err, "unknown", 0, "thrd_raii_wrapper", p->failed->panic, NULL);
     }
 }
 
@@ -71,12 +71,11 @@ static int thrd_raii_wrapper(void_t arg) {
     future_arg *f = (future_arg *)arg;
     int err = 0;
     void_t res = nullptr;
-    f->value->scope->err = nullptr;
     rpmalloc_init();
 
     guard {
         res = f->func((args_t)f->arg);
-    } guarded_exception(f->value->scope);
+    } guarded_exception(f->value->failed);
 
     promise_set(f->value, res, (!is_empty(f->arg) && is_type(f->arg, RAII_ARGS) && ((args_t)f->arg)->is_returning));
     if (is_type(f, RAII_FUTURE_ARG)) {
@@ -282,7 +281,7 @@ future_t thrd_sync(future_t v) {
             v->results[i]->result->value.array = result->value.array;
         }
 
-        v->results[i]->is_ready = true;
+        v->results[i]->is_ready = is_empty(p->failed->err);
         v->futures[i] = NULL;
         future_close(f);
         promise_close(p);
diff --git a/src/raii.c b/src/raii.c
index 22d551f..cdd70b1 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -494,7 +494,7 @@ bool raii_caught(const char *err) {
     memory_t *scope = raii_init();
     const char *exception = (const char *)(!is_empty((void *)scope->panic) ? scope->panic : scope->err);
 
-    if (exception == NULL && is_str_eq(err, ex_local()->ex)) {
+    if (exception == NULL && (is_str_eq(err, ex_local()->ex) || is_str_eq(err, ex_local()->panic))) {
         ex_local()->state = ex_catch_st;
         return true;
     }
-- 
2.43.0


From 01650bed0474d0d7c9ebb24c8c2ce9b425496556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:47 +0000
Subject: [PATCH 22/26] fix: threads added to the scope of the thread that
 created them, unsynchronised

---
 include/raii.h |  1 +
 src/future.c   | 41 ++++++++++++++++++++++++++++-------------
 2 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/include/raii.h b/include/raii.h
index 0b56a0c..c5a1295 100644
--- a/include/raii.h
+++ b/include/raii.h
@@ -199,6 +199,7 @@ typedef struct _promise {
     atomic_spinlock mutex;
     memory_t *scope;
     raii_values_t *result;
+    raii_values_t value[1];
     /* The exception that ended the thread's function. */
     memory_t failed[1];
 } promise;
diff --git a/src/future.c b/src/future.c
index 3c907b6..abb6778 100644
--- a/src/future.c
+++ b/src/future.c
@@ -23,10 +23,12 @@ static promise *promise_create(void) {
 static void promise_set(promise *p, void_t res, bool is_args) {
     atomic_lock(&p->mutex);
     if (!is_empty(res)) {
+        /* The scope belongs to the thread getting the result, nothing is added to it here. */
+        p->result = p->value;
         if (is_args) {
-            p->result = (raii_values_t *)res;
+            memcpy((void_t)p->result, res, sizeof(raii_values_t));
+            RAII_FREE(res);
         } else {
-            p->result = (raii_values_t *)calloc_full(p->scope, 1, sizeof(raii_values_t), RAII_FREE);
             p->result->value.object = res;
         }
     }
@@ -35,13 +37,22 @@ static void promise_set(promise *p, void_t res, bool is_args) {
     atomic_flag_test_and_set(&p->done);
 }
 
-static RAII_INLINE raii_values_t *promise_get(promise *p) {
+static raii_values_t *promise_get(promise *p) {
     while (!atomic_flag_load(&p->done))
         thrd_yield();
 
     return p->result;
 }
 
+/* Hand over what `thrd_returning` kept to the scope of the receiving thread. */
+static void promise_adopt(promise *p, memory_t *scope) {
+    if (!is_empty(p->result) && !is_empty(p->result->extended)) {
+        void_t value = p->result->extended;
+        p->result->extended = NULL;
+        raii_deferred(scope, RAII_FREE, value);
+    }
+}
+
 static void promise_close(promise *p) {
     if (is_type(p, RAII_PROMISE)) {
         p->type = -1;
@@ -112,6 +123,7 @@ values_type thrd_get(future f) {
         promise *p = f->value;
         raii_values_t *r = promise_get(p);
         future_close(f);
+        promise_adopt(p, p->scope);
         promise_close(p);
         if (is_empty(r)) {
             values_type none = {0};
@@ -134,8 +146,13 @@ RAII_INLINE void thrd_wait(future f, wait_func yield) {
 }
 
 RAII_INLINE raii_values_t *thrd_returning(args_t args, void_t value, size_t size) {
-    raii_deferred(args->context, RAII_FREE, value);
-    raii_values_t *result = (raii_values_t *)calloc_full(args->context, 1, sizeof(raii_values_t), RAII_FREE);
+    raii_values_t *result = (raii_values_t *)RAII_CALLOC(1, sizeof(raii_values_t));
+    if (UNLIKELY(is_empty(result))) {
+        RAII_FREE(value);
+        errno = ENOMEM;
+        raii_panic("Calloc failed!");
+    }
+
     result->value.object = value;
     result->size = size;
     result->extended = value;
@@ -253,6 +270,9 @@ result_t thrd_spawn_ex(thrd_func_t fn, const char *desc, ...) {
     va_start(args, desc);
     args_t params = raii_args_ex(raii_local(), desc, args);
     va_end(args);
+    /* Released by this thread's scope, the spawned thread adds nothing to it. */
+    raii_deferred(raii_init(), (func_t)args_free, params);
+    params->defer_set = true;
 
     return thrd_spawn(fn, (void_t)params);
 }
@@ -271,16 +291,11 @@ future_t thrd_sync(future_t v) {
 
         promise *p = f->value;
         raii_values_t *result = promise_get(p);
-        size_t size = is_empty(result) ? 0 : result->size;
         v->results[i]->result = (raii_values_t *)calloc_full(scope, 1, sizeof(raii_values_t), RAII_FREE);
-        if (size > 0) {
-            v->results[i]->result->extended = calloc_full(scope, 1, size, RAII_FREE);
-            memcpy(v->results[i]->result->extended, result->extended, size);
-            v->results[i]->result->value.object = v->results[i]->result->extended;
-        } else if (!is_empty(result)) {
-            v->results[i]->result->value.array = result->value.array;
-        }
+        if (!is_empty(result))
+            memcpy((void_t)v->results[i]->result, (void_t)result, sizeof(raii_values_t));
 
+        promise_adopt(p, scope);
         v->results[i]->is_ready = is_empty(p->failed->err);
         v->futures[i] = NULL;
         future_close(f);
-- 
2.43.0


From d534abdcd3e1ecd9da98321ae54985d0492326e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:47 +0000
Subject: [PATCH 23/26] fix: starting a thread lost memory, or the running
 thread, when a step of it failed

---
 src/future.c | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/future.c b/src/future.c
index abb6778..861cbec 100644
--- a/src/future.c
+++ b/src/future.c
@@ -101,13 +101,22 @@ static int thrd_raii_wrapper(void_t arg) {
 }
 
 static void thrd_start(future f, promise *value, void_t arg) {
-    future_arg *f_arg = try_calloc(1, sizeof(future_arg));
+    future_arg *f_arg = RAII_CALLOC(1, sizeof(future_arg));
+    if (UNLIKELY(is_empty(f_arg))) {
+        RAII_FREE(f);
+        errno = ENOMEM;
+        raii_panic("Calloc failed!");
+    }
+
     f_arg->func = f->func;
     f_arg->arg = arg;
     f_arg->value = value;
     f_arg->type = RAII_FUTURE_ARG;
-    if (thrd_create(&f->thread, thrd_raii_wrapper, f_arg) != thrd_success)
+    if (thrd_create(&f->thread, thrd_raii_wrapper, f_arg) != thrd_success) {
+        RAII_FREE(f_arg);
+        RAII_FREE(f);
         throw(future_error);
+    }
 }
 
 future thrd_async(thrd_func_t fn, void_t args) {
@@ -245,21 +254,15 @@ result_t thrd_spawn(thrd_func_t fn, void_t args) {
     }
 
     promise *p = promise_create();
-    future f = future_create(fn);
-    future_arg *f_arg = try_calloc(1, sizeof(future_arg));
-    f_arg->func = f->func;
-    f_arg->arg = args;
-    f_arg->value = p;
-    f_arg->type = RAII_FUTURE_ARG;
-    f->value = p;
-    if (thrd_create(&f->thread, thrd_raii_wrapper, f_arg) != thrd_success)
-        throw(future_error);
-
-    pool->futures[pool->thread_count] = f;
+    /* Everything that can fail comes before the thread is running. */
     pool->results[pool->thread_count] = (result_t)calloc_full(pool->scope, 1, sizeof(struct result_data), RAII_FREE);
     pool->results[pool->thread_count]->is_ready = false;
     pool->results[pool->thread_count]->result = NULL;
     pool->results[pool->thread_count]->type = RAII_VALUE;
+    future f = future_create(fn);
+    f->value = p;
+    thrd_start(f, p, args);
+    pool->futures[pool->thread_count] = f;
     pool->thread_count++;
 
     return pool->results[pool->thread_count - 1];
-- 
2.43.0


From ed51ae05a9f43dbb0866685fd74a4756099c88f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:08 +0000
Subject: [PATCH 24/26] fix: thrd_spawn without a thread scope dereferenced
 NULL

---
 src/future.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/future.c b/src/future.c
index 861cbec..2722944 100644
--- a/src/future.c
+++ b/src/future.c
@@ -244,7 +244,7 @@ future_t thrd_scope(void) {
 }
 
 result_t thrd_spawn(thrd_func_t fn, void_t args) {
-    if (is_raii_empty() || !is_type(raii_local()->arena, RAII_SPAWN))
+    if (is_raii_empty() || is_empty(raii_local()->arena) || !is_type(raii_local()->arena, RAII_SPAWN))
         raii_panic("No initialization, No `thrd_scope`!");
 
     future_t pool = (future_t)raii_local()->arena;
-- 
2.43.0


From be5844f62f6fb2d9424f77d2d7fb86df752476ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:53 +0000
Subject: [PATCH 25/26] fix: mprotect could not remove all access on Windows

---
 src/mman.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mman.c b/src/mman.c
index 980db12..4e1f7d4 100644
--- a/src/mman.c
+++ b/src/mman.c
@@ -34,7 +34,7 @@ static int __map_mman_error(const DWORD err, const int deferr) {
 }
 
 static DWORD __map_mmap_prot_page(const int prot) {
-    DWORD protect = 0;
+    DWORD protect = PAGE_NOACCESS;
 
     if (prot == PROT_NONE)
         return protect;
-- 
2.43.0


From c4b546d30b835687ef7c8e32ab9917bb6bb3bfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:53 +0000
Subject: [PATCH 26/26] fix: writes to private file mappings reached the file
 on Windows

---
 src/mman.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/mman.c b/src/mman.c
index 4e1f7d4..e98ff1c 100644
--- a/src/mman.c
+++ b/src/mman.c
@@ -76,8 +76,14 @@ void *mmap(void *addr, size_t len, int prot, int flags, int fildes, OffsetType o
 
     const DWORD dwFileOffsetLow = (sizeof(OffsetType) <= sizeof(DWORD)) ? (DWORD)off : (DWORD)(off & 0xFFFFFFFFL);
     const DWORD dwFileOffsetHigh = (sizeof(OffsetType) <= sizeof(DWORD)) ? (DWORD)0 : (DWORD)((off >> 32) & 0xFFFFFFFFL);
-    const DWORD protect = __map_mmap_prot_page(prot);
-    const DWORD desiredAccess = __map_mmap_prot_file(prot);
+    DWORD protect = __map_mmap_prot_page(prot);
+    DWORD desiredAccess = __map_mmap_prot_file(prot);
+
+    /* Writes to a private mapping must not reach the file. */
+    if ((flags & (MAP_PRIVATE | MAP_ANONYMOUS)) == MAP_PRIVATE && (prot & PROT_WRITE) != 0) {
+        protect = ((prot & PROT_EXEC) != 0) ? PAGE_EXECUTE_WRITECOPY : PAGE_WRITECOPY;
+        desiredAccess = FILE_MAP_COPY | (desiredAccess & FILE_MAP_EXECUTE);
+    }
 
     const OffsetType maxSize = off + (OffsetType)len;
 
-- 
2.43.0

