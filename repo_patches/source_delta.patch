From 14785fe9349117d403b924dfdce1dde0cb99b54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:04 +0000
Subject: [PATCH 01/13] fix: call the existing fetch32_be_unaligned() in
 tail64_be_unaligned()

fetch32_be() is not defined anywhere, so big-endian targets with efficient
unaligned access failed to build t1ha1_be() whenever the oneshot tail read is
off (always on 32-bit).
---
 src/t1ha_bits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t1ha_bits.h b/src/t1ha_bits.h
index 93b6b51..5c2eb0c 100644
--- a/src/t1ha_bits.h
+++ b/src/t1ha_bits.h
@@ -935,7 +935,7 @@ tail64_be_unaligned(const void *v, size_t tail) {
   case 3:
     return (uint32_t)fetch16_be_unaligned(p) << 8 | p[2];
   case 4:
-    return fetch32_be(p);
+    return fetch32_be_unaligned(p);
   case 5:
     return (uint64_t)fetch32_be_unaligned(p) << 8 | p[4];
   case 6:
-- 
2.43.0


From ec04b34de78f64b22bfc8308f04b31691b773e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:38 +0000
Subject: [PATCH 02/13] fix: don't read 8 bytes at once by a pointer aligned
 only to 4

On 32-bit platforms ALIGNMENT_64 is 4, therefore the oneshot read inside
tail64_le_aligned() and tail64_be_aligned() could cross a page boundary and
touch an unmapped page (T1HA_SYS_UNALIGNED_ACCESS = 0 or 1).
---
 src/t1ha_bits.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/t1ha_bits.h b/src/t1ha_bits.h
index 5c2eb0c..e0956b9 100644
--- a/src/t1ha_bits.h
+++ b/src/t1ha_bits.h
@@ -604,8 +604,11 @@ fetch64_le_unaligned(const void *v) {
 static __maybe_unused __always_inline uint64_t tail64_le_aligned(const void *v,
                                                                  size_t tail) {
   const uint8_t *const p = (const uint8_t *)v;
-#if T1HA_USE_FAST_ONESHOT_READ && !defined(__SANITIZE_ADDRESS__)
-  /* We can perform a 'oneshot' read, which is little bit faster. */
+#if T1HA_USE_FAST_ONESHOT_READ && !defined(__SANITIZE_ADDRESS__) &&             \
+    ALIGNMENT_64 == 8
+  /* We can perform a 'oneshot' read, which is little bit faster.
+   * But not when just 4-byte alignment is known (i.e. on 32-bit platforms),
+   * since then an 8-byte read could cross the page boundary. */
   const unsigned shift = ((8 - tail) & 7) << 3;
   return fetch64_le_aligned(p) & ((~UINT64_C(0)) >> shift);
 #else
@@ -847,8 +850,11 @@ fetch64_be_unaligned(const void *v) {
 static __maybe_unused __always_inline uint64_t tail64_be_aligned(const void *v,
                                                                  size_t tail) {
   const uint8_t *const p = (const uint8_t *)v;
-#if T1HA_USE_FAST_ONESHOT_READ && !defined(__SANITIZE_ADDRESS__)
-  /* We can perform a 'oneshot' read, which is little bit faster. */
+#if T1HA_USE_FAST_ONESHOT_READ && !defined(__SANITIZE_ADDRESS__) &&             \
+    ALIGNMENT_64 == 8
+  /* We can perform a 'oneshot' read, which is little bit faster.
+   * But not when just 4-byte alignment is known (i.e. on 32-bit platforms),
+   * since then an 8-byte read could cross the page boundary. */
   const unsigned shift = ((8 - tail) & 7) << 3;
   return fetch64_be_aligned(p) >> shift;
 #else
-- 
2.43.0


From 0f10faede0052f0792fec2bc9907148e0d2ddacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:40 +0000
Subject: [PATCH 03/13] fix: don't pass NULL to memcpy() from t1ha2_update()

An empty chunk may be given as {NULL, 0}, but with a partially filled buffer
it led to memcpy(..., NULL, 0), which is undefined behavior.
---
 src/t1ha2.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/t1ha2.c b/src/t1ha2.c
index 009f922..80d6984 100644
--- a/src/t1ha2.c
+++ b/src/t1ha2.c
@@ -311,6 +311,9 @@ void t1ha2_init(t1ha_context_t *ctx, uint64_t seed_x, uint64_t seed_y) {
 
 void t1ha2_update(t1ha_context_t *__restrict ctx, const void *__restrict data,
                   size_t length) {
+  if (unlikely(length == 0))
+    return /* nothing to do, the data may be NULL */;
+
   ctx->total += length;
 
   if (ctx->partial) {
-- 
2.43.0


From 0a9d6a751bc17451b624a78425075a2cd57e0f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:57 +0000
Subject: [PATCH 04/13] fix: make t1ha0() callable before the library
 constructor has run

Without indirect functions t1ha0_funcptr was NULL until t1ha0_init(), so
t1ha0() crashed when called from an earlier constructor (or from any static
initializer of a DSO/object initialized before).
---
 src/t1ha0.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/t1ha0.c b/src/t1ha0.c
index 635f19d..66a9061 100644
--- a/src/t1ha0.c
+++ b/src/t1ha0.c
@@ -438,14 +438,6 @@ __asm("\t.globl\tt1ha0\n\t.type\tt1ha0, "
       "%gnu_indirect_function\n\t.set\tt1ha0,t1ha0_resolve");
 #endif /* __has_attribute(__ifunc__) */
 
-#elif __GNUC_PREREQ(4, 0) || __has_attribute(__constructor__)
-
-uint64_t (*t1ha0_funcptr)(const void *, size_t, uint64_t);
-
-static __cold void __attribute__((__constructor__)) t1ha0_init(void) {
-  t1ha0_funcptr = t1ha0_resolve();
-}
-
 #else /* T1HA_USE_INDIRECT_FUNCTIONS */
 
 static __cold uint64_t t1ha0_proxy(const void *data, size_t len,
@@ -456,6 +448,12 @@ static __cold uint64_t t1ha0_proxy(const void *data, size_t len,
 
 uint64_t (*t1ha0_funcptr)(const void *, size_t, uint64_t) = t1ha0_proxy;
 
+#if __GNUC_PREREQ(4, 0) || __has_attribute(__constructor__)
+static __cold void __attribute__((__constructor__)) t1ha0_init(void) {
+  t1ha0_funcptr = t1ha0_resolve();
+}
+#endif
+
 #endif /* !T1HA_USE_INDIRECT_FUNCTIONS */
 #endif /* T1HA0_RUNTIME_SELECT */
 
-- 
2.43.0


From 44b60918a1847e687814ef3b395d5a85b5ad9752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:12 +0000
Subject: [PATCH 05/13] fix: check XCR0 before choosing the AVX/AVX2
 implementations

CPUID's OSXSAVE bit only says that XGETBV is usable. An OS could keep the YMM
state disabled in XCR0 while CPUID still reports AVX/AVX2 (for instance Linux
with clearcpuid=avx or gather_data_sampling=force), then t1ha0() crashed
with #UD.
---
 src/t1ha0.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/t1ha0.c b/src/t1ha0.c
index 66a9061..e1db14d 100644
--- a/src/t1ha0.c
+++ b/src/t1ha0.c
@@ -361,6 +361,7 @@ uint64_t t1ha0_32be(const void *data, size_t len, uint64_t seed) {
 __cold uint64_t t1ha_ia32cpu_features(void) {
   uint32_t features = 0;
   uint32_t extended = 0;
+  bool os_avx = false;
 #ifdef __GNUC__
   uint32_t eax, ebx, ecx, edx;
   const unsigned cpuid_max = __get_cpuid_max(0, NULL);
@@ -369,6 +370,12 @@ __cold uint64_t t1ha_ia32cpu_features(void) {
     if (cpuid_max >= 7)
       __cpuid_count(7, 0, eax, extended, ecx, edx);
   }
+  if (features & UINT32_C(0x08000000 /* OSXSAVE */)) {
+    uint32_t xcr0;
+    /* xgetbv(0) in the form suitable for old assemblers and any -m options */
+    __asm __volatile(".byte 0x0f, 0x01, 0xd0" : "=a"(xcr0), "=d"(edx) : "c"(0));
+    os_avx = (xcr0 & 6) == 6;
+  }
 #elif defined(_MSC_VER)
   int info[4];
   __cpuid(info, 0);
@@ -381,7 +388,15 @@ __cold uint64_t t1ha_ia32cpu_features(void) {
       extended = info[1];
     }
   }
+  if (features & UINT32_C(0x08000000 /* OSXSAVE */))
+    os_avx = (_xgetbv(0) & 6) == 6;
 #endif
+  if (!os_avx) {
+    /* The CPU may have AVX/AVX2, but the OS didn't enable (in the XCR0)
+     * both XMM and YMM states, so using of AVX/AVX2 will cause #UD. */
+    features &= ~UINT32_C(0x10000000 /* AVX */);
+    extended &= ~UINT32_C(0x00000020 /* AVX2 */);
+  }
   return features | (uint64_t)extended << 32;
 }
 #endif /* T1HA0_AESNI_AVAILABLE && __ia32__ */
-- 
2.43.0


From dcdefd4352e3230e4ebeb09a972d559d24aa09ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:19 +0000
Subject: [PATCH 06/13] fix: don't instrument the IFUNC resolver of t1ha0()

The resolver is called by a dynamic linker (or by the startup code of a static
executable) before TLS and runtimes of sanitizers are ready, so any program
with t1ha0() crashed at startup when the library was built with
-fsanitize=thread, or with -fstack-protector-all and linked statically.
---
 src/t1ha0.c | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/t1ha0.c b/src/t1ha0.c
index e1db14d..0c742a9 100644
--- a/src/t1ha0.c
+++ b/src/t1ha0.c
@@ -357,14 +357,41 @@ uint64_t t1ha0_32be(const void *data, size_t len, uint64_t seed) {
 
 /***************************************************************************/
 
+/* The t1ha0_resolve() may be called by a dynamic linker while a relocation
+ * is in progress, i.e. before both TLS and a sanitizer's runtime are ready.
+ * Therefore it, with all callee, must not be instrumented. */
+#ifndef __no_instrument
+#if T1HA_USE_INDIRECT_FUNCTIONS &&                                             \
+    __has_attribute(__disable_sanitizer_instrumentation__) &&                  \
+    __has_attribute(__no_stack_protector__)
+#define __no_instrument                                                        \
+  __attribute__((__disable_sanitizer_instrumentation__, __no_stack_protector__))
+#elif T1HA_USE_INDIRECT_FUNCTIONS &&                                           \
+    __has_attribute(__no_sanitize_thread__) &&                                 \
+    __has_attribute(__no_sanitize_address__) &&                                \
+    __has_attribute(__no_stack_protector__)
+#define __no_instrument                                                        \
+  __attribute__((__no_sanitize_thread__, __no_sanitize_address__,              \
+                 __no_stack_protector__))
+#else
+#define __no_instrument
+#endif
+#endif /* __no_instrument */
+
 #if T1HA0_AESNI_AVAILABLE && defined(__ia32__)
-__cold uint64_t t1ha_ia32cpu_features(void) {
+__cold __no_instrument uint64_t t1ha_ia32cpu_features(void) {
   uint32_t features = 0;
   uint32_t extended = 0;
   bool os_avx = false;
 #ifdef __GNUC__
   uint32_t eax, ebx, ecx, edx;
+#ifdef __amd64__
+  /* the __get_cpuid_max() may be not inlined and then will be instrumented */
+  uint32_t cpuid_max;
+  __cpuid_count(0, 0, cpuid_max, ebx, ecx, edx);
+#else
   const unsigned cpuid_max = __get_cpuid_max(0, NULL);
+#endif /* __amd64__ */
   if (cpuid_max >= 1) {
     __cpuid_count(1, 0, eax, ebx, features, edx);
     if (cpuid_max >= 7)
@@ -403,7 +430,7 @@ __cold uint64_t t1ha_ia32cpu_features(void) {
 
 #if T1HA0_RUNTIME_SELECT
 
-__cold t1ha0_function_t t1ha0_resolve(void) {
+__cold __no_instrument t1ha0_function_t t1ha0_resolve(void) {
 
 #if T1HA0_AESNI_AVAILABLE && defined(__ia32__)
   uint64_t features = t1ha_ia32cpu_features();
-- 
2.43.0


From ff684b7095445a001a83b0dafd9ebe6cf905a552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:33 +0000
Subject: [PATCH 07/13] fix: export t1ha0_32le() and t1ha0_32be() which the
 inline t1ha0() needs

---
 t1ha.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/t1ha.h b/t1ha.h
index 498f0dd..8ea3b46 100644
--- a/t1ha.h
+++ b/t1ha.h
@@ -585,9 +585,9 @@ T1HA_API uint64_t t1ha1_be(const void *data, size_t length, uint64_t seed);
 #ifndef T1HA0_DISABLED
 
 /* The little-endian variant for 32-bit CPU. */
-uint64_t t1ha0_32le(const void *data, size_t length, uint64_t seed);
+T1HA_API uint64_t t1ha0_32le(const void *data, size_t length, uint64_t seed);
 /* The big-endian variant for 32-bit CPU. */
-uint64_t t1ha0_32be(const void *data, size_t length, uint64_t seed);
+T1HA_API uint64_t t1ha0_32be(const void *data, size_t length, uint64_t seed);
 
 /* Define T1HA0_AESNI_AVAILABLE to 0 for disable AES-NI support. */
 #ifndef T1HA0_AESNI_AVAILABLE
-- 
2.43.0


From ad8fce2361fafcc4c648a5aaf8defff67ccde1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:44 +0000
Subject: [PATCH 08/13] fix: require 8-byte alignment for 64-bit loads on
 32-bit non-x86 platforms

With ALIGNMENT_64 equal to 4 the data at a 4-byte aligned address was read
through uint64_t pointers, which traps on platforms with strict alignment of
64-bit words (e.g. ldd of SPARC, ldrd of ARMv5TE) and is undefined behavior
on all of them.
---
 src/t1ha_bits.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/t1ha_bits.h b/src/t1ha_bits.h
index e0956b9..0aa374c 100644
--- a/src/t1ha_bits.h
+++ b/src/t1ha_bits.h
@@ -90,9 +90,12 @@
 
 #define ALIGNMENT_16 2
 #define ALIGNMENT_32 4
-#if UINTPTR_MAX > 0xffffFFFFul || ULONG_MAX > 0xffffFFFFul
+#if UINTPTR_MAX > 0xffffFFFFul || ULONG_MAX > 0xffffFFFFul ||                  \
+    !defined(__ia32__)
 #define ALIGNMENT_64 8
 #else
+/* Not for any 32-bit CPU: e.g. ARM (ldrd) and SPARC (ldd) require the 8-byte
+ * alignment of 64-bit words, so compilers do expect it from uint64_t. */
 #define ALIGNMENT_64 4
 #endif
 
-- 
2.43.0


From c66100186122a1f1c2368846aeaa017cd6d6059f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:33 +0000
Subject: [PATCH 09/13] fix: use the actual alignment of uint64_t on 32-bit
 platforms other than x86

The assertions of the aligned loads failed, with the previous fix, where the
ABI aligns uint64_t to 4 bytes only: the context's buffer isn't aligned more.
---
 src/t1ha_bits.h | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/t1ha_bits.h b/src/t1ha_bits.h
index 0aa374c..4e5ec4c 100644
--- a/src/t1ha_bits.h
+++ b/src/t1ha_bits.h
@@ -90,13 +90,18 @@
 
 #define ALIGNMENT_16 2
 #define ALIGNMENT_32 4
-#if UINTPTR_MAX > 0xffffFFFFul || ULONG_MAX > 0xffffFFFFul ||                  \
-    !defined(__ia32__)
+#if UINTPTR_MAX > 0xffffFFFFul || ULONG_MAX > 0xffffFFFFul
 #define ALIGNMENT_64 8
+#elif defined(__ia32__)
+#define ALIGNMENT_64 4
 #else
-/* Not for any 32-bit CPU: e.g. ARM (ldrd) and SPARC (ldd) require the 8-byte
+/* Not 4 for any 32-bit CPU: e.g. ARM (ldrd) and SPARC (ldd) require the 8-byte
  * alignment of 64-bit words, so compilers do expect it from uint64_t. */
-#define ALIGNMENT_64 4
+struct t1ha_alignment_64 {
+  char c;
+  uint64_t u64;
+};
+#define ALIGNMENT_64 offsetof(struct t1ha_alignment_64, u64)
 #endif
 
 #ifndef PAGESIZE
@@ -608,7 +613,7 @@ static __maybe_unused __always_inline uint64_t tail64_le_aligned(const void *v,
                                                                  size_t tail) {
   const uint8_t *const p = (const uint8_t *)v;
 #if T1HA_USE_FAST_ONESHOT_READ && !defined(__SANITIZE_ADDRESS__) &&             \
-    ALIGNMENT_64 == 8
+    (UINTPTR_MAX > 0xffffFFFFul || ULONG_MAX > 0xffffFFFFul)
   /* We can perform a 'oneshot' read, which is little bit faster.
    * But not when just 4-byte alignment is known (i.e. on 32-bit platforms),
    * since then an 8-byte read could cross the page boundary. */
@@ -854,7 +859,7 @@ static __maybe_unused __always_inline uint64_t tail64_be_aligned(const void *v,
                                                                  size_t tail) {
   const uint8_t *const p = (const uint8_t *)v;
 #if T1HA_USE_FAST_ONESHOT_READ && !defined(__SANITIZE_ADDRESS__) &&             \
-    ALIGNMENT_64 == 8
+    (UINTPTR_MAX > 0xffffFFFFul || ULONG_MAX > 0xffffFFFFul)
   /* We can perform a 'oneshot' read, which is little bit faster.
    * But not when just 4-byte alignment is known (i.e. on 32-bit platforms),
    * since then an 8-byte read could cross the page boundary. */
-- 
2.43.0


From 0388684edebbfeb461db7dba935be88c9a08c140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:45 +0000
Subject: [PATCH 10/13] fix: disable instrumentation for all callee of the
 IFUNC-resolver

The __get_cpuid_max() from <cpuid.h>, when not inlined, was instrumented by
a stack protector, so with T1HA_USE_INDIRECT_FUNCTIONS=1 a 32-bit static
executable built by -O0 -fstack-protector-all crashed at startup.
---
 src/t1ha0.c | 62 +++++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 55 insertions(+), 7 deletions(-)

diff --git a/src/t1ha0.c b/src/t1ha0.c
index 0c742a9..2da0d11 100644
--- a/src/t1ha0.c
+++ b/src/t1ha0.c
@@ -378,20 +378,57 @@ uint64_t t1ha0_32be(const void *data, size_t len, uint64_t seed) {
 #endif
 #endif /* __no_instrument */
 
+#if T1HA_USE_INDIRECT_FUNCTIONS && __has_attribute(__no_stack_protector__)
+/* The attributes above don't reach a callee which is not inlined, therefore
+ * instrumentation must be disabled for all functions from here to the end. */
+#if defined(__clang__)
+#pragma clang attribute push(__attribute__((__no_stack_protector__)),          \
+                             apply_to = function)
+#if __has_attribute(__disable_sanitizer_instrumentation__)
+#pragma clang attribute push(                                                  \
+    __attribute__((__disable_sanitizer_instrumentation__)),                    \
+    apply_to = function)
+#endif
+#elif defined(__GNUC__)
+#pragma GCC push_options
+#pragma GCC optimize("no-stack-protector")
+#endif
+#endif /* __no_stack_protector__ */
+
 #if T1HA0_AESNI_AVAILABLE && defined(__ia32__)
+#ifdef __GNUC__
+/* The __get_cpuid_max() from a system header may be not inlined and then will
+ * be instrumented, so it is not suitable here. */
+static __cold __no_instrument uint32_t ia32_cpuid_max(void) {
+  uint32_t eax, ebx, ecx, edx;
+#ifndef __amd64__
+  /* check for CPUID availability, i.e. whether the EFLAGS.ID is changeable */
+  __asm("pushfl\n\t"
+        "pushfl\n\t"
+        "popl %0\n\t"
+        "movl %0, %1\n\t"
+        "xorl $0x200000, %0\n\t"
+        "pushl %0\n\t"
+        "popfl\n\t"
+        "pushfl\n\t"
+        "popl %0\n\t"
+        "popfl"
+        : "=&r"(eax), "=&r"(ebx));
+  if (((eax ^ ebx) & UINT32_C(0x200000)) == 0)
+    return 0;
+#endif /* !__amd64__ */
+  __cpuid_count(0, 0, eax, ebx, ecx, edx);
+  return eax;
+}
+#endif /* __GNUC__ */
+
 __cold __no_instrument uint64_t t1ha_ia32cpu_features(void) {
   uint32_t features = 0;
   uint32_t extended = 0;
   bool os_avx = false;
 #ifdef __GNUC__
   uint32_t eax, ebx, ecx, edx;
-#ifdef __amd64__
-  /* the __get_cpuid_max() may be not inlined and then will be instrumented */
-  uint32_t cpuid_max;
-  __cpuid_count(0, 0, cpuid_max, ebx, ecx, edx);
-#else
-  const unsigned cpuid_max = __get_cpuid_max(0, NULL);
-#endif /* __amd64__ */
+  const uint32_t cpuid_max = ia32_cpuid_max();
   if (cpuid_max >= 1) {
     __cpuid_count(1, 0, eax, ebx, features, edx);
     if (cpuid_max >= 7)
@@ -499,4 +536,15 @@ static __cold void __attribute__((__constructor__)) t1ha0_init(void) {
 #endif /* !T1HA_USE_INDIRECT_FUNCTIONS */
 #endif /* T1HA0_RUNTIME_SELECT */
 
+#if T1HA_USE_INDIRECT_FUNCTIONS && __has_attribute(__no_stack_protector__)
+#if defined(__clang__)
+#pragma clang attribute pop
+#if __has_attribute(__disable_sanitizer_instrumentation__)
+#pragma clang attribute pop
+#endif
+#elif defined(__GNUC__)
+#pragma GCC pop_options
+#endif
+#endif /* __no_stack_protector__ */
+
 #endif /* T1HA0_DISABLED */
-- 
2.43.0


From 5cdce705a27b2fb298daa5c8a98d02325cb5037e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:51 +0000
Subject: [PATCH 11/13] fix: use the GNU-style CPUID/XGETBV code with clang-cl
 too

clang which imitates Visual C++ defines _MSC_VER without __GNUC__, while
t1ha_bits.h includes the <cpuid.h> for any clang, whose __cpuid() macro
has other parameters than the one of Visual C++. So t1ha0.c was not
compilable.
---
 src/t1ha0.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/t1ha0.c b/src/t1ha0.c
index 2da0d11..806ccfd 100644
--- a/src/t1ha0.c
+++ b/src/t1ha0.c
@@ -396,7 +396,7 @@ uint64_t t1ha0_32be(const void *data, size_t len, uint64_t seed) {
 #endif /* __no_stack_protector__ */
 
 #if T1HA0_AESNI_AVAILABLE && defined(__ia32__)
-#ifdef __GNUC__
+#if defined(__GNUC__) || defined(__clang__)
 /* The __get_cpuid_max() from a system header may be not inlined and then will
  * be instrumented, so it is not suitable here. */
 static __cold __no_instrument uint32_t ia32_cpuid_max(void) {
@@ -420,13 +420,13 @@ static __cold __no_instrument uint32_t ia32_cpuid_max(void) {
   __cpuid_count(0, 0, eax, ebx, ecx, edx);
   return eax;
 }
-#endif /* __GNUC__ */
+#endif /* __GNUC__ || __clang__ */
 
 __cold __no_instrument uint64_t t1ha_ia32cpu_features(void) {
   uint32_t features = 0;
   uint32_t extended = 0;
   bool os_avx = false;
-#ifdef __GNUC__
+#if defined(__GNUC__) || defined(__clang__)
   uint32_t eax, ebx, ecx, edx;
   const uint32_t cpuid_max = ia32_cpuid_max();
   if (cpuid_max >= 1) {
-- 
2.43.0


From 3757934093eac6b07088467565df5c7033270c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:56 +0000
Subject: [PATCH 12/13] fix: don't push hidden visibility for Windows

The PE/COFF has no such visibility, and clang refuses to combine it with
dllexport. So the library was not compilable by clang for MinGW.
---
 src/t1ha_bits.h | 2 +-
 t1ha.h          | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/t1ha_bits.h b/src/t1ha_bits.h
index 4e5ec4c..879bbdb 100644
--- a/src/t1ha_bits.h
+++ b/src/t1ha_bits.h
@@ -525,7 +525,7 @@ static __always_inline const
 
 /***************************************************************************/
 
-#if __GNUC_PREREQ(4, 0)
+#if __GNUC_PREREQ(4, 0) && !defined(_WIN32) && !defined(__CYGWIN__)
 #pragma GCC visibility push(hidden)
 #endif /* __GNUC_PREREQ(4,0) */
 
diff --git a/t1ha.h b/t1ha.h
index 8ea3b46..4cab987 100644
--- a/t1ha.h
+++ b/t1ha.h
@@ -395,7 +395,7 @@
 #endif
 #endif /* T1HA_USE_INDIRECT_FUNCTIONS */
 
-#if __GNUC_PREREQ(4, 0)
+#if __GNUC_PREREQ(4, 0) && !defined(_WIN32) && !defined(__CYGWIN__)
 #pragma GCC visibility push(hidden)
 #endif /* __GNUC_PREREQ(4,0) */
 
@@ -714,6 +714,6 @@ static __force_inline uint64_t t1ha0(const void *data, size_t length,
 }
 #endif
 
-#if __GNUC_PREREQ(4, 0)
+#if __GNUC_PREREQ(4, 0) && !defined(_WIN32) && !defined(__CYGWIN__)
 #pragma GCC visibility pop
 #endif /* __GNUC_PREREQ(4,0) */
-- 
2.43.0


From dd52bb79349487ff9cc734c7a805fd2eaccd7907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:14 +0000
Subject: [PATCH 13/13] fix: don't truncate the length in t1ha0_ia32aes_avx2()
 where long is 32-bit

On LLP64 targets (64-bit Windows) ~15ul is a 32-bit mask, which zero-extends
to size_t and so drops the upper half of the length: of an input of 4 GiB or
more only the part below a multiple of 4 GiB was hashed.
---
 src/t1ha0_ia32aes_b.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t1ha0_ia32aes_b.h b/src/t1ha0_ia32aes_b.h
index f8759dd..3411e5b 100644
--- a/src/t1ha0_ia32aes_b.h
+++ b/src/t1ha0_ia32aes_b.h
@@ -56,7 +56,7 @@ uint64_t T1HA_IA32AES_NAME(const void *data, size_t len, uint64_t seed) {
 
     const __m128i *v = (const __m128i *)data;
     const __m128i *const detent =
-        (const __m128i *)((const uint8_t *)data + (len & ~15ul));
+        (const __m128i *)((const uint8_t *)data + (len & ~(size_t)15));
     data = detent;
 
     if (len & 16) {
-- 
2.43.0

