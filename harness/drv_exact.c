/* Byte-exact monitoring of the memory which the functions touch.
 *   drv_exact <rule: bytes|pages> <amount> <shard> <shards>
 * Monitors: WITH_TRACE (log of loads and stores), AddressSanitizer (poisoned
 * surroundings), WITH_VG (valgrind, NOACCESS surroundings). */
#include "common.h"
#ifdef __has_feature
#if __has_feature(address_sanitizer)
#define ASAN 1
#endif
#endif
#ifdef __SANITIZE_ADDRESS__
#define ASAN 1
#endif
#ifdef ASAN
#include <sanitizer/asan_interface.h>
#endif
#ifdef WITH_TRACE
#include "memtrace.h"
#endif
#ifdef WITH_VG
#include <valgrind/memcheck.h>
#endif

static uint64_t n_calls, n_places, n_flips, n_stream;
static bool pages;
static unsigned shard, shards;
static uint8_t *BUF;
enum { BUFSZ = 32768 };
static uintptr_t stack_hi;

static void closed(void) {
#ifdef ASAN
  __asan_poison_memory_region(BUF, BUFSZ);
#endif
#ifdef WITH_VG
  VALGRIND_MAKE_MEM_NOACCESS(BUF, BUFSZ);
#endif
}
static void opened(const void *p, size_t n) {
  (void)p, (void)n;
#ifdef ASAN
  /* unpoisons the head of the first granule as well: byte-exact at the end */
  if (n)
    __asan_unpoison_memory_region(p, n);
#endif
#ifdef WITH_VG
  VALGRIND_MAKE_MEM_DEFINED(p, n);
#endif
}

typedef struct {
  const uint8_t *p;
  size_t n;
} span;

static unsigned err0;
static void before(void) {
#ifdef WITH_TRACE
  mt_n = 0;
  mt_on = 1;
#endif
#ifdef WITH_VG
  err0 = VALGRIND_COUNT_ERRORS;
#endif
}
static bool inside(uintptr_t a, size_t n, span s) {
  return s.p && a >= (uintptr_t)s.p && a + n <= (uintptr_t)s.p + s.n;
}
/* `in`: the input; `o1`, `o2`: what may be written and read */
static void after(const char *name, span in, span o1, span o2, bool all_read) {
#ifdef WITH_TRACE
  mt_on = 0;
  static uint8_t got[BUFSZ];
  if (all_read && in.n)
    memset(got, 0, in.n);
  uintptr_t plo = (uintptr_t)in.p & ~(uintptr_t)(PG - 1),
            phi = in.n ? (((uintptr_t)in.p + in.n - 1) | (PG - 1)) : plo;
  uintptr_t sp = (uintptr_t)__builtin_frame_address(0);
  for (size_t i = 0; i < mt_n; i++) {
    uintptr_t a = mt_log[i].addr;
    size_t n = mt_log[i].size;
    char key[100];
    if (inside(a, n, o1) || inside(a, n, o2))
      continue;
    if (a < stack_hi && a >= sp - 65536)
      continue; /* automatic storage of the callee */
    bool in_buf = a + n > (uintptr_t)BUF && a < (uintptr_t)BUF + BUFSZ;
    if (mt_log[i].store) {
      snprintf(key, sizeof(key), "store:%s", name);
      fail(key, "stores %zu bytes at %#zx: not the output (input %p+%zu, "
           "output %p+%zu)", n, (size_t)a, (void *)in.p, in.n, (void *)o1.p,
           o1.n);
      return;
    }
    if (!in_buf)
      continue; /* constants of the program; checked by C10 */
    bool ok = pages ? in.n && a >= plo && a + n - 1 <= phi : inside(a, n, in);
    if (!ok) {
      snprintf(key, sizeof(key), "load:%s", name);
      fail(key, "loads %zu bytes at input%+td, the input is %p+%zu", n,
           (ptrdiff_t)(a - (uintptr_t)in.p), (void *)in.p, in.n);
      return;
    }
    if (all_read)
      for (size_t k = 0; k < n; k++) {
        uintptr_t x = a + k;
        if (x >= (uintptr_t)in.p && x < (uintptr_t)in.p + in.n)
          got[x - (uintptr_t)in.p] = 1;
      }
  }
  if (all_read && mt_n < MT_CAP)
    for (size_t k = 0; k < in.n; k++)
      if (!got[k]) {
        char key[100];
        snprintf(key, sizeof(key), "unread:%s", name);
        fail(key, "byte %zu of %zu is never read", k, in.n);
        return;
      }
#endif
#ifdef WITH_VG
  unsigned e = VALGRIND_COUNT_ERRORS;
  if (e != err0) {
    char key[100];
    snprintf(key, sizeof(key), "valgrind:%s", name);
    fail(key, "%u reports, input %p+%zu, page offset %u", e - err0,
         (void *)in.p, in.n, (unsigned)((uintptr_t)in.p % PG));
  }
#endif
  (void)name, (void)in, (void)o1, (void)o2, (void)all_read;
}

static void plain(int id, const uint8_t *p, size_t len, uint64_t seed) {
  static uint64_t hi;
  span in = {p, len}, o = {(uint8_t *)&hi, sizeof(hi)}, no = {0, 0};
  rec_case(g_targets[id].name, p, len, seed, 0);
  before();
  (void)g_call(id, p, len, seed, rel_seed(seed), &hi);
  after(g_targets[id].name, in, o, no, id != G_2S_64 && id != G_2S_128);
  n_calls++;
}

static size_t lens[600], nlens;
static void ph_plain(uint64_t amount, bool slow) {
  for (size_t i = 0; i <= 300; i++)
    lens[nlens++] = i;
  static const size_t more[] = {383, 384, 385, 511, 512, 513, 639, 640, 1023,
                                1024, 1025, 2049, 4095, 4096, 4097, 8200};
  for (size_t i = 0; i < sizeof(more) / sizeof(*more); i++)
    lens[nlens++] = more[i];
  uint8_t tmp[9000];
  for (uint64_t rep = 0; rep < amount; rep++)
    for (size_t li = 0; li < nlens && !enough(); li++) {
      size_t len = lens[li];
      if (slow && len > 80 && rndn(6))
        continue;
      if (li % shards != shard)
        continue;
      rnd_fill(tmp, len);
      /* offsets: all alignments in a page, and around a page boundary */
      for (unsigned k = 0; k < 32 + 32; k++) {
        if (slow && rndn(len > 40 ? 6 : 2))
          continue;
        uint8_t *p = k < 16   ? BUF + 4096 + 1000 + k
                     : k < 32 ? BUF + 8192 - len + (k - 16) * 1
                     : k < 48 ? BUF + 3 * 4096 - (k - 32)
                              : BUF + 8192 + 16384 - len - (k - 48);
        if (p < BUF + 64 || p + len > BUF + BUFSZ - 64)
          continue;
        opened(p, len);
        memcpy(p, tmp, len);
        n_places++;
        for (int id = 0; id < G_MAX; id++)
          if (g_targets[id].present && cpu_can(id))
            plain(id, p, len, rnd());
        closed();
      }
    }
}

/* streaming: chunks at any place, context with closed surroundings */
static void ph_stream(uint64_t amount) {
  if (!g_t2_present)
    return;
  size_t sz = (g_ctx_size + g_ctx_align - 1) / g_ctx_align * g_ctx_align;
  uint8_t *cm = aligned_alloc(g_ctx_align < 16 ? 16 : g_ctx_align, sz * 3);
  uint8_t *c = cm + sz;
#ifdef ASAN
  __asan_poison_memory_region(cm, sz);
  __asan_poison_memory_region(cm + 2 * sz, sz);
#endif
#ifdef WITH_VG
  VALGRIND_MAKE_MEM_NOACCESS(cm, sz);
  VALGRIND_MAKE_MEM_NOACCESS(cm + 2 * sz, sz);
#endif
  span ctx = {c, g_ctx_size}, no = {0, 0};
  for (uint64_t k = 0; k < amount && !enough(); k++) {
    uint64_t x = rnd(), y = rnd(), hi;
    span none = {0, 0};
    rec_case("t1ha2_init", c, 0, x, y);
    before();
    g_init(c, x, y);
    after("t1ha2_init", none, ctx, no, false);
    for (unsigned u = 0; u < 1 + rndn(5); u++) {
      size_t n = rndn(4) ? rndn(100) : rndn(600);
      uint8_t *p = BUF + 64 + rndn(BUFSZ - 800);
      opened(p, n);
      rnd_fill(p, n);
      span in = {p, n};
      rec_case("t1ha2_update", p, n, x, y);
      before();
      g_update(c, p, n);
      after("t1ha2_update", in, ctx, no, true);
      closed();
      n_stream++;
    }
    span o = {(uint8_t *)&hi, 8};
    bool wide = rndn(2);
    rec_case("t1ha2_final", c, 0, x, y);
    before();
    g_final(c, wide ? &hi : NULL);
    after("t1ha2_final", none, ctx, wide ? o : no, false);
    n_calls += 3;
  }
}

/* every byte matters */
static void ph_flip(uint64_t amount) {
  uint8_t *p = malloc(1100);
  for (uint64_t rep = 0; rep < amount; rep++)
    for (size_t len = 1; len <= 300 && !enough(); len++) {
      if (len % shards != shard)
        continue;
      rnd_fill(p, len);
      uint64_t seed = rnd();
      for (int id = 0; id < G_MAX; id++) {
        if (!g_targets[id].present || !cpu_can(id))
          continue;
        uint64_t h0 = 0, r0 = g_call(id, p, len, seed, rel_seed(seed), &h0);
        for (size_t i = 0; i < len; i++) {
          uint8_t m = (uint8_t)(1 + rndn(255));
          uint64_t h1 = 0;
          p[i] ^= m;
          uint64_t r1 = g_call(id, p, len, seed, rel_seed(seed), &h1);
          p[i] ^= m;
          n_flips++;
          if (r0 == r1) {
            char key[100];
            snprintf(key, sizeof(key), "ignored-byte:%s", g_targets[id].name);
            fail(key, "len=%zu byte %zu xor %#x does not change the result",
                 len, i, m);
            break;
          }
        }
      }
    }
}

/* inputs of every order of magnitude: all bytes are read, none else; flips */
static void ph_pow(unsigned top, bool flips) {
  size_t size = ((size_t)2 << top) + 3 * PG;
  uint8_t *m = aligned_alloc(PG, size), *got = malloc(size);
  for (unsigned b = 9; b <= top; b++)
    for (unsigned r = 0; r < 3; r++) {
      if ((b + r) % shards != shard)
        continue;
      size_t len = ((size_t)1 << b) + rndn((uint64_t)1 << b);
      uint8_t *p = r == 0   ? m + PG + rndn(64)
                   : r == 1 ? m + size - PG - len
                            : m + size - PG - len - rndn(64);
      if (r == 2)
        len &= ~(size_t)31;
      rnd_fill(p, len);
#ifdef ASAN
      __asan_poison_memory_region(m, size);
      __asan_unpoison_memory_region(p, len);
#endif
#ifdef WITH_VG
      VALGRIND_MAKE_MEM_NOACCESS(m, p - m);
      VALGRIND_MAKE_MEM_NOACCESS(p + len, m + size - (p + len));
#endif
      n_places++;
      for (int id = 0; id < G_MAX && !enough(); id++) {
        if (!g_targets[id].present || !cpu_can(id))
          continue;
        const char *name = g_targets[id].name;
        span in = {p, len}, no = {0, 0};
        uint64_t seed = rnd(), h0 = 0, r0;
        rec_case(name, p, len, seed, 0);
#ifdef WITH_TRACE
        mt_alo = (uintptr_t)m, mt_ahi = mt_alo + size;
        mt_ilo = (uintptr_t)p, mt_ihi = mt_ilo + len;
        if (pages)
          mt_ilo &= ~(uintptr_t)(PG - 1), mt_ihi = (mt_ihi + PG - 1) & ~(uintptr_t)(PG - 1);
        mt_bad.size = 0;
        memset(got, 0, size);
        mt_got = got;
#endif
        before();
        r0 = g_call(id, p, len, seed, rel_seed(seed), &h0);
        n_calls++;
#ifdef WITH_TRACE
        mt_on = 0;
        mt_got = 0;
        char key[100];
        if (mt_bad.size) {
          snprintf(key, sizeof(key), "%s:%s", mt_bad.store ? "store" : "load",
                   name);
          fail(key, "%zu bytes at input%+td, the input is %p+%zu",
               (size_t)mt_bad.size, (ptrdiff_t)(mt_bad.addr - (uintptr_t)p),
               (void *)p, len);
        }
        for (size_t k = 0; k < len; k++)
          if (!got[k + ((uintptr_t)p - mt_ilo)]) {
            snprintf(key, sizeof(key), "unread:%s", name);
            fail(key, "byte %zu of %zu is never read", k, len);
            break;
          }
#endif
#ifdef WITH_TRACE
        mt_n = 0;
#endif
        after(name, in, no, no, false);
        for (unsigned j = 0; flips && j < (b < 16 ? 60u : b < 20 ? 16u : 6u); j++) {
          uint64_t w = rndn(4), h1 = 0, r1;
          size_t i = w == 0   ? rndn(len)
                     : w == 1 ? rndn(64)
                              : len - 1 - rndn(w * 32);
          uint8_t x = (uint8_t)(1 + rndn(255));
          p[i] ^= x;
          r1 = g_call(id, p, len, seed, rel_seed(seed), &h1);
          p[i] ^= x;
          n_flips++;
          if (r0 == r1) {
            char key[100];
            snprintf(key, sizeof(key), "ignored-byte:%s", name);
            fail(key, "len=%zu byte %zu xor %#x does not change the result",
                 len, i, x);
            break;
          }
        }
      }
#ifdef ASAN
      __asan_unpoison_memory_region(m, size);
#endif
#ifdef WITH_VG
      VALGRIND_MAKE_MEM_DEFINED(m, size);
#endif
    }
  free(m), free(got);
}

int main(int argc, char **argv) {
  if (argc != 5)
    die("usage");
  stack_hi = (uintptr_t)__builtin_frame_address(0) + 4096;
  shard = (unsigned)atoi(argv[3]);
  shards = (unsigned)atoi(argv[4]);
  common_init(argc, argv, 0xE0 + shard);
  pages = !strcmp(argv[1], "pages");
  uint64_t amount = strtoull(argv[2], 0, 0);
  BUF = aligned_alloc(PG, BUFSZ);
  bool slow = false;
#ifdef WITH_VG
  if (!RUNNING_ON_VALGRIND)
    die("not under valgrind");
  slow = true;
#endif
  closed();
  ph_plain(amount, slow);
  ph_stream(slow ? 300 * amount : 3000 * amount);
  if (!slow)
    ph_flip(1);
  ph_pow(slow ? 14 : amount > 2 ? 24 : 22, !slow);
  stat_out("calls", n_calls);
  stat_out("placements", n_places);
  stat_out("stream_chunks", n_stream);
  stat_out("byte_flips", n_flips);
#ifdef WITH_TRACE
  stat_out("loads_observed", mt_loads);
  stat_out("stores_observed", mt_stores);
  if (!mt_loads)
    die("the trace is empty");
#endif
#ifdef WITH_VG
  stat_out("calls_under_valgrind", n_calls);
#endif
#ifdef ASAN
  stat_out("calls_under_asan", n_calls);
#endif
  return 0;
}
