/* Independence of uninitialised and surrounding memory.
 *   drv_def <amount> <shard> <shards>
 * Monitors: MemorySanitizer (poisoned surroundings, contexts and outputs),
 * WITH_VG (valgrind: undefined surroundings), otherwise differential runs. */
#include "common.h"
#ifdef __has_feature
#if __has_feature(memory_sanitizer)
#define MSAN 1
#include <sanitizer/msan_interface.h>
#endif
#endif
#ifdef WITH_VG
#include <valgrind/memcheck.h>
#endif

static uint64_t n_calls, n_groups, n_defined, n_stream;
static unsigned shard, shards;
static size_t BUFSZ = 32768;
static uint8_t *BUF;
static unsigned err0;

static void around(uint8_t *p, size_t len) {
#if defined(MSAN)
  __msan_poison(BUF, BUFSZ);
  __msan_unpoison(p, len);
#elif defined(WITH_VG)
  VALGRIND_MAKE_MEM_UNDEFINED(BUF, p - BUF);
  VALGRIND_MAKE_MEM_UNDEFINED(p + len, BUF + BUFSZ - (p + len));
#else
  /* what is next to the input is new each time, and sometimes extreme */
  size_t lo = 80, hi = 80;
  uint8_t *a = p - lo, *b = p + len;
  if (a < BUF)
    a = BUF;
  if (b + hi > BUF + BUFSZ)
    hi = (size_t)(BUF + BUFSZ - b);
  switch (rndn(4)) {
  case 0:
    memset(a, 0, (size_t)(p - a));
    memset(b, 0, hi);
    break;
  case 1:
    memset(a, 0xff, (size_t)(p - a));
    memset(b, 0xff, hi);
    break;
  default:
    rnd_fill(a, (size_t)(p - a));
    rnd_fill(b, hi);
  }
#endif
}
static void undef(void *p, size_t n) {
#if defined(MSAN)
  __msan_poison(p, n);
#elif defined(WITH_VG)
  VALGRIND_MAKE_MEM_UNDEFINED(p, n);
#else
  rnd_fill(p, n);
#endif
}
static void start(void) {
#ifdef WITH_VG
  err0 = VALGRIND_COUNT_ERRORS;
#endif
}
static void want_defined(const char *name, uint64_t *r, const char *what,
                         size_t len) {
  char key[100];
  (void)key, (void)name, (void)r, (void)what, (void)len;
#if defined(MSAN)
  n_defined++;
  intptr_t at = __msan_test_shadow(r, 8);
  if (at >= 0) {
    snprintf(key, sizeof(key), "undefined-%s:%s", what, name);
    fail(key, "byte %td of the result is undefined, len=%zu, ptr%%4096=%u",
         (ptrdiff_t)at, len, (unsigned)(REC->addr % PG));
    __msan_unpoison(r, 8);
  }
#elif defined(WITH_VG)
  n_defined++;
  if (VALGRIND_CHECK_MEM_IS_DEFINED(r, 8)) {
    snprintf(key, sizeof(key), "undefined-%s:%s", what, name);
    fail(key, "the result is undefined, len=%zu, ptr%%4096=%u", len,
         (unsigned)(REC->addr % PG));
    VALGRIND_MAKE_MEM_DEFINED(r, 8);
    return;
  }
  unsigned e = VALGRIND_COUNT_ERRORS;
  if (e != err0) {
    snprintf(key, sizeof(key), "undefined-use:%s", name);
    fail(key, "%u reports, len=%zu, ptr%%4096=%u", e - err0, len,
         (unsigned)(REC->addr % PG));
    err0 = e;
  }
#endif
}

/* other contents of the dead stack and of the scratch registers */
static __attribute__((noinline)) void scribble(uint64_t v) {
#if defined(MSAN) || defined(WITH_VG)
  (void)v;
#else
  volatile uint64_t s[160];
  for (int i = 0; i < 160; i++)
    s[i] = v + (v & 1 ? i : 0);
#if defined(__x86_64__)
  __asm volatile("movq %0, %%xmm0\n\tpshufd $0x44, %%xmm0, %%xmm0\n\t"
                 "movdqa %%xmm0,%%xmm1\n\tmovdqa %%xmm0,%%xmm2\n\t"
                 "movdqa %%xmm0,%%xmm3\n\tmovdqa %%xmm0,%%xmm4\n\t"
                 "movdqa %%xmm0,%%xmm5\n\tmovdqa %%xmm0,%%xmm6\n\t"
                 "movdqa %%xmm0,%%xmm7\n\tmovdqa %%xmm0,%%xmm8\n\t"
                 "movdqa %%xmm0,%%xmm9\n\tmovdqa %%xmm0,%%xmm10\n\t"
                 "movdqa %%xmm0,%%xmm11\n\tmovdqa %%xmm0,%%xmm12\n\t"
                 "mov %0,%%rax\n\tmov %0,%%rcx\n\tmov %0,%%r8\n\t"
                 "mov %0,%%r9\n\tmov %0,%%r10\n\tmov %0,%%r11\n\t"
                 :
                 : "d"(v)
                 : "rax", "rcx", "r8", "r9", "r10", "r11", "xmm0", "xmm1",
                   "xmm2", "xmm3", "xmm4", "xmm5", "xmm6", "xmm7", "xmm8",
                   "xmm9", "xmm10", "xmm11", "xmm12", "cc");
#endif
#endif
}

static bool slow;
static uint8_t *place(size_t len) {
  uint8_t *p;
  if (BUFSZ > 65536) /* ph_pow */
    return BUF + 128 + rndn(BUFSZ - 256 - len);
  switch (rndn(4)) {
  case 0: /* up to the end of a page */
    p = BUF + 4 * PG - len - rndn(12);
    break;
  case 1: /* at the start of a page, or just after */
    p = BUF + 2 * PG + rndn(12);
    break;
  case 2: /* across */
    p = BUF + 3 * PG - rndn(len + 1);
    break;
  default:
    p = BUF + 128 + rndn(BUFSZ - 256 - len);
  }
  if (p < BUF + 64 || p + len > BUF + BUFSZ - 64)
    p = BUF + 256 + rndn(64);
  return p;
}

static void group(int id, size_t len, unsigned times) {
  uint8_t *data = malloc(len + 1);
  uint64_t seed = rnd(), lo0 = 0, hi0 = 0;
  rnd_fill(data, len);
  n_groups++;
  bool wide = g_targets[id].alg == M_2_128 || g_targets[id].alg == M_2S_128;
  for (unsigned t = 0; t < times; t++) {
    uint8_t *p = place(len);
    memcpy(p, data, len);
    around(p, len);
    uint64_t hi, lo;
    undef(&hi, sizeof(hi));
    rec_case(g_targets[id].name, p, len, seed, 0);
    scribble(rnd());
    start();
    lo = g_call(id, p, len, seed, 0, &hi);
    n_calls++;
    want_defined(g_targets[id].name, &lo, "result", len);
    if (wide)
      want_defined(g_targets[id].name, &hi, "extra_result", len);
    else
      hi = 0;
#if defined(MSAN)
    __msan_unpoison(&hi, 8);
#endif
    if (t == 0)
      lo0 = lo, hi0 = hi;
    else if (lo != lo0 || hi != hi0) {
      char key[100];
      snprintf(key, sizeof(key), "depends-on-surroundings:%s",
               g_targets[id].name);
      fail(key, "len=%zu seed=%#" PRIx64 ": %016" PRIx64 ":%016" PRIx64
           " and at ptr%%4096=%u %016" PRIx64 ":%016" PRIx64 " data=%s",
           len, seed, hi0, lo0, (unsigned)((uintptr_t)p % PG), hi, lo,
           hexs(data, len > 200 ? 200 : len));
      break;
    }
  }
  free(data);
}

/* the same history over contexts with different garbage */
static void ph_stream(uint64_t amount) {
  if (!g_t2_present)
    return;
  size_t sz = (g_ctx_size + g_ctx_align - 1) / g_ctx_align * g_ctx_align;
  uint8_t *cm = aligned_alloc(g_ctx_align < 16 ? 16 : g_ctx_align, sz * 4);
  static uint8_t data[2000];
  for (uint64_t k = 0; k < amount && !enough(); k++) {
    unsigned n = (unsigned)rndn(5);
    size_t len[5];
    for (unsigned i = 0; i < n; i++)
      len[i] = rndn(4) ? rndn(48) : rndn(300);
    rnd_fill(data, sizeof(data));
    uint64_t x = rnd(), y = rnd(), lo0 = 0, hi0 = 0;
    bool wide = rndn(2);
    n_groups++;
    for (unsigned t = 0; t < 3; t++) {
      uint8_t *c = cm + sz * rndn(4);
      undef(cm, sz * 4);
      rec_case("t1ha2_stream", c, n, x, y);
      scribble(rnd());
      start();
      g_init(c, x, y);
      size_t at = 0;
      for (unsigned i = 0; i < n; i++) {
        uint8_t *p = place(len[i]);
        memcpy(p, data + at, len[i]);
        at += len[i];
        around(p, len[i]);
        g_update(c, len[i] ? p : NULL, len[i]);
        undef(p, len[i]); /* the memory of a chunk is not used later */
        n_stream++;
        if (rndn(6) == 0) { /* move */
          uint8_t *d = cm + sz * rndn(4);
          if (d != c) {
            memcpy(d, c, g_ctx_size);
            undef(c, sz);
            c = d;
          }
        }
      }
      uint64_t hi, lo;
      undef(&hi, 8);
      lo = g_final(c, wide ? &hi : NULL);
      n_calls++;
      want_defined("t1ha2_stream", &lo, "result", at);
      if (wide)
        want_defined("t1ha2_stream", &hi, "extra_result", at);
      else
        hi = 0;
#if defined(MSAN)
      __msan_unpoison(&hi, 8);
#endif
      if (t == 0)
        lo0 = lo, hi0 = hi;
      else if (lo != lo0 || hi != hi0) {
        fail("depends-on-garbage:t1ha2_stream",
             "total=%zu chunks=%u wide=%d seeds %#" PRIx64 " %#" PRIx64
             ": %016" PRIx64 " and %016" PRIx64, at, n, wide, x, y, lo0, lo);
        break;
      }
    }
  }
}

/* inputs of every order of magnitude */
static void ph_pow(unsigned top) {
  BUFSZ = (size_t)3 << top;
  free(BUF);
  BUF = aligned_alloc(PG, BUFSZ);
  memset(BUF, 0, BUFSZ);
  for (unsigned b = 9; b <= top; b++)
    for (int id = 0; id < G_MAX && !enough(); id++)
      if (g_targets[id].present && cpu_can(id) && (b + id) % shards == shard)
        group(id, ((size_t)1 << b) + rndn((uint64_t)1 << b),
              b < 14 ? 12 : 6);
}

int main(int argc, char **argv) {
  if (argc != 4)
    die("usage");
  shard = (unsigned)atoi(argv[2]);
  shards = (unsigned)atoi(argv[3]);
  common_init(argc, argv, 0xDE0 + shard);
  uint64_t amount = strtoull(argv[1], 0, 0);
  BUF = aligned_alloc(PG, BUFSZ);
  memset(BUF, 0, BUFSZ);
#ifdef WITH_VG
  if (!RUNNING_ON_VALGRIND)
    die("not under valgrind");
  slow = true;
#endif
  static const size_t more[] = {383, 384, 385, 511, 512, 513, 640, 1024,
                                1025, 2049, 4095, 4096, 4097};
  for (uint64_t rep = 0; rep < amount; rep++)
    for (size_t li = 0; li < 300 + sizeof(more) / sizeof(*more); li++) {
      size_t len = li < 300 ? li : more[li - 300];
      if (li % shards != shard || (slow && len > 70 && rndn(5)))
        continue;
      for (int id = 0; id < G_MAX && !enough(); id++)
        if (g_targets[id].present && cpu_can(id))
          group(id, len, slow ? 6 : 24);
    }
  ph_stream(amount * (slow ? 200 : 4000));
  ph_pow(slow ? 15 : amount > 8 ? 24 : 22);
  stat_out("calls", n_calls);
  stat_out("groups", n_groups);
  stat_out("stream_chunks", n_stream);
  stat_out("definedness_checks", n_defined);
  return 0;
}
