/* Memory containment at page granularity: inaccessible pages around the input,
 * read-only input, canaries around the outputs.
 *   drv_contain <phase> <amount> <shard> <shards> */
#include "common.h"
#include <setjmp.h>
#include <signal.h>

static sigjmp_buf jb;
static volatile sig_atomic_t armed;
static void *fault_at;
static int fault_sig;
static void on_fault(int sig, siginfo_t *si, void *uc) {
  (void)uc;
  if (!armed) {
    signal(sig, SIG_DFL);
    return;
  }
  fault_at = si->si_addr;
  fault_sig = sig;
  armed = 0;
  siglongjmp(jb, 1);
}

static uint64_t n_calls, n_zero, n_canary, n_stored, n_places;
static unsigned shard, shards;
static bool mine(uint64_t k) { return k % shards == shard; }

/* [256 pages PROT_NONE][n pages][256 pages PROT_NONE] */
enum { WIDE = 256 };
static arena_t wide_arena(size_t pages) {
  uint8_t *m = mmap(0, (pages + 2 * WIDE) * PG, PROT_NONE,
                    MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (m == MAP_FAILED)
    die("mmap");
  arena_t a = {m + WIDE * PG, m + (WIDE + pages) * PG, pages * PG};
  arena_prot(a, PROT_READ | PROT_WRITE);
  return a;
}
static bool guarded(int id, const void *p, size_t len, uint64_t seed,
                    uint64_t *hi) {
  rec_case(g_targets[id].name, p, len, seed, 0);
  n_calls++;
  if (sigsetjmp(jb, 1)) {
    char key[120];
    const uint8_t *f = fault_at, *b = p;
    const char *w = fault_sig == SIGILL   ? "sigill"
                    : len == 0            ? "len0"
                    : f < b               ? "before"
                    : f < b + len         ? "input-write"
                                          : "after";
    snprintf(key, sizeof(key), "access:%s:%s", g_targets[id].name, w);
    fail(key, "signal %d at %p, input [%p,+%zu), page offset %u, seed %#" PRIx64,
         fault_sig, fault_at, p, len, (unsigned)((uintptr_t)p % PG), seed);
    return false;
  }
  armed = 1;
  g_call(id, p, len, seed, rel_seed(seed), hi);
  armed = 0;
  return true;
}
#define ALL(id)                                                                \
  for (int id = 0; id < G_MAX && !enough(); id++)                              \
    if (g_targets[id].present && cpu_can(id))

static uint64_t HI;
static void ph_guard(uint64_t amount) {
  static const size_t more[] = {383,  384,  385,  511,  512,  513,   639,
                                640,  767,  895,  1023, 1024, 1025,  1151,
                                2047, 2048, 2049, 4063, 4064, 4065,  4080,
                                4095, 4096, 4097, 4127, 4128, 8191,  8192,
                                8193, 8224, 12287, 12288};
  arena_t a = wide_arena(3);
  for (uint64_t rep = 0; rep < amount; rep++) {
    arena_prot(a, PROT_READ | PROT_WRITE);
    rnd_fill(a.base, a.size);
    arena_prot(a, PROT_READ);
    for (size_t li = 0; li < 340 + sizeof(more) / sizeof(*more); li++) {
      size_t len = li < 340 ? li : more[li - 340];
      if (!mine(li))
        continue;
      for (unsigned k = 0; k < 64; k++) {
        uint64_t seed = any_seed();
        if (len + k <= a.size) {
          n_places += 2;
          ALL(id) guarded(id, a.end - len - k, len, seed, &HI);
          ALL(id) guarded(id, a.base + k, len, seed, &HI);
        }
      }
    }
  }
}
/* one page alone: short inputs at every offset */
static void ph_page(uint64_t amount) {
  arena_t a = wide_arena(1);
  rnd_fill(a.base, a.size);
  arena_prot(a, PROT_READ);
  for (uint64_t rep = 0; rep < amount; rep++)
    for (size_t off = 0; off < PG; off++) {
      if (!mine(off))
        continue;
      for (size_t k = 0; k < 10; k++) {
        size_t len = k < 9 ? k : 9 + rndn(200);
        if (off + len > PG)
          len = PG - off;
        n_places++;
        ALL(id) guarded(id, a.base + off, len, rnd(), &HI);
      }
    }
}
/* zero length: the pointer is never dereferenced */
static void ph_zero(uint64_t amount) {
  arena_t a = wide_arena(1);
  const void *bad[] = {NULL,
                       (void *)1,
                       (void *)7,
                       (void *)8,
                       (void *)(uintptr_t)4095,
                       (void *)(uintptr_t)4096,
                       (void *)~(uintptr_t)0,
                       (void *)(~(uintptr_t)0 - 7),
                       (void *)(~(uintptr_t)0 - 4095),
                       (void *)((uintptr_t)1 << (sizeof(void *) * 8 - 1)),
                       a.base - 1,
                       a.base - 8,
                       a.base - PG,
                       a.end,
                       a.end + 1,
                       a.end + 8,
                       a.end + 2048,
                       a.end + PG};
  for (uint64_t rep = 0; rep < amount; rep++) {
    for (unsigned i = 0; i < sizeof(bad) / sizeof(*bad); i++) {
      n_zero++;
      ALL(id) guarded(id, bad[i], 0, any_seed(), &HI);
    }
    n_zero++;
    ALL(id) guarded(id, a.end + rndn(PG * WIDE - 64), 0, any_seed(), &HI);
  }
}

static bool outside_same(const arena_t *a, const uint8_t *snap,
                         const uint8_t *obj, size_t size, const uint8_t **at) {
  size_t o = (size_t)(obj - a->base);
  if (!memcmp(a->base, snap, o) &&
      !memcmp(obj + size, snap + o + size, a->size - o - size))
    return true;
  for (size_t i = 0; i < a->size; i++)
    if ((i < o || i >= o + size) && a->base[i] != snap[i]) {
      *at = a->base + i;
      break;
    }
  return false;
}

/* extra_result: always stored, exactly 8 bytes */
static void ph_extra(uint64_t amount) {
  arena_t a = wide_arena(1), d = wide_arena(2);
  uint8_t *snap = malloc(a.size);
  rnd_fill(d.base, d.size);
  arena_prot(d, PROT_READ);
  static const int ids[] = {G_2_128, G_2S_128};
  for (uint64_t rep = 0; rep < amount; rep++)
    for (size_t len = 0; len < 200 && !enough(); len++)
      for (int which = 0; which < 2; which++) {
        if (!mine(len))
          continue;
        int id = ids[which];
        if (!g_targets[id].present)
          continue;
        unsigned k = (unsigned)rndn(3);
        uint64_t *x = (uint64_t *)(k == 0   ? a.end - 8
                                   : k == 1 ? a.base
                                            : a.base + 8 * rndn(500));
        const uint8_t *p = rndn(2) ? d.end - len : d.base + rndn(64);
        uint64_t seed = any_seed(), got[2];
        for (int t = 0; t < 2; t++) {
          rnd_fill(a.base, a.size);
          *x = t ? ~(uint64_t)0x0123456789abcdef : 0x0123456789abcdef;
          memcpy(snap, a.base, a.size);
          if (!guarded(id, p, len, seed, x))
            return;
          n_canary++;
          const uint8_t *at = NULL;
          if (!outside_same(&a, snap, (uint8_t *)x, 8, &at))
            fail("write:extra_result", "%s len=%zu wrote at %p, extra=%p",
                 g_targets[id].name, len, at, (void *)x);
          got[t] = *x;
        }
        n_stored++;
        if (got[0] != got[1])
          fail("extra_result-not-stored",
               "%s len=%zu: left %#" PRIx64 " and %#" PRIx64,
               g_targets[id].name, len, got[0], got[1]);
      }
}

/* the context: nothing else is written or touched */
static void ph_ctx(uint64_t amount) {
  if (!g_t2_present)
    return;
  arena_t a = wide_arena(1), d = wide_arena(3);
  uint8_t *snap = malloc(a.size);
  rnd_fill(d.base, d.size);
  arena_prot(d, PROT_READ);
  size_t sz = (g_ctx_size + g_ctx_align - 1) / g_ctx_align * g_ctx_align;
  const uint8_t *at = NULL;
  for (uint64_t rep = 0; rep < amount && !enough(); rep++) {
    unsigned k = (unsigned)rndn(3);
    size_t slots = PG / g_ctx_align - sz / g_ctx_align;
    uint8_t *c = k == 0   ? a.end - sz
                 : k == 1 ? a.base
                          : a.base + g_ctx_align * rndn(slots);
    rnd_fill(a.base, a.size);
    memcpy(snap, a.base, a.size);
    if (sigsetjmp(jb, 1)) {
      char key[100];
      snprintf(key, sizeof(key), "access:stream:%s", REC->target);
      fail(key, "signal %d at %p; context %p+%zu; input %#" PRIx64
           "+%" PRIu64 "; %s", fault_sig, fault_at, (void *)c, g_ctx_size,
           REC->addr, REC->len, REC->what);
      continue;
    }
    char op = 'i';
    armed = 1;
    rec_case("t1ha2_init", c, 0, 0, 0);
    rec_what("init");
    g_init(c, rnd(), rnd());
    for (unsigned u = 0; u < 1 + rndn(6); u++) {
      size_t n = rndn(rndn(3) ? 70 : 400);
      if (rndn(12) == 0)
        n = rndn(3 * PG);
      const uint8_t *p = rndn(2) ? d.end - n : d.base + rndn(16);
      if (p + n > d.end)
        p = d.end - n;
      if (n == 0)
        p = rndn(2) ? NULL : d.end;
      rec_case("t1ha2_update", p, n, 0, 0);
      n_calls++;
      n_places++;
      g_update(c, p, n);
      n_canary++;
      op = 'u';
      if (!outside_same(&a, snap, c, g_ctx_size, &at))
        break;
    }
    if (op == 'u' && outside_same(&a, snap, c, g_ctx_size, &at)) {
      uint64_t hi;
      rec_case("t1ha2_final", c, 0, 0, 0);
      g_final(c, rndn(2) ? &hi : NULL);
      n_calls++;
      op = 'f';
    }
    armed = 0;
    n_canary++;
    if (!outside_same(&a, snap, c, g_ctx_size, &at))
      fail("write:context", "wrote at %p outside of the context %p+%zu (%c)",
           at, (void *)c, g_ctx_size, op);
  }
}

/* inputs of every order of magnitude, alone and as chunks */
static void ph_pow(uint64_t top) {
  size_t max = (size_t)2 << top;
  arena_t a = wide_arena(max / PG), c = wide_arena(1);
  rnd_fill(a.base, a.size);
  arena_prot(a, PROT_READ);
  size_t sz = (g_ctx_size + g_ctx_align - 1) / g_ctx_align * g_ctx_align;
  uint8_t *ctx = c.end - sz, *snap = malloc(c.size);
  for (unsigned b = 9; b <= top; b++)
    for (unsigned r = 0; r < 8 && !enough(); r++) {
      if (!mine(b + r))
        continue;
      size_t len = ((size_t)1 << b) + rndn((uint64_t)1 << b);
      if (r & 1)
        len &= ~(size_t)31;
      size_t k = r < 4 ? 0 : rndn(64);
      if (len + k > a.size)
        len = a.size - k;
      const uint8_t *p = r & 2 ? a.base + k : a.end - len - k;
      n_places++;
      ALL(id) {
        uint64_t seed = any_seed(), h[2] = {0x0123456789abcdef, 0};
        h[1] = ~h[0];
        for (int t = 0; t < 2; t++)
          if (!guarded(id, p, len, seed, &h[t]))
            return;
        if ((id == G_2_128 || id == G_2S_128) && (n_stored++, h[0] != h[1]))
          fail("extra_result-not-stored",
               "%s len=%zu: left %#" PRIx64 " and %#" PRIx64,
               g_targets[id].name, len, h[0], h[1]);
      }
      if (!g_t2_present)
        continue;
      rnd_fill(c.base, c.size);
      memcpy(snap, c.base, c.size);
      if (sigsetjmp(jb, 1)) {
        fail("access:stream:t1ha2_update", "signal %d at %p; context %p+%zu; "
             "chunk [%p,+%zu); %s", fault_sig, fault_at, (void *)ctx,
             g_ctx_size, (const void *)p, len, REC->what);
        return;
      }
      unsigned pend = (unsigned)rndn(33);
      rec_what("pow: %u bytes before", pend);
      armed = 1;
      g_init(ctx, rnd(), rnd());
      g_update(ctx, a.base, pend);
      rec_case("t1ha2_update", p, len, 0, 0);
      g_update(ctx, p, len);
      g_update(ctx, p, rndn(40));
      uint64_t hi;
      g_final(ctx, rndn(2) ? &hi : NULL);
      armed = 0;
      n_canary++;
      const uint8_t *at = NULL;
      if (!outside_same(&c, snap, ctx, g_ctx_size, &at))
        fail("write:context", "wrote at %p outside of the context %p+%zu "
             "(pow, chunk of %zu)", at, (void *)ctx, g_ctx_size, len);
    }
}

int main(int argc, char **argv) {
  if (argc != 5)
    die("usage");
  shard = (unsigned)atoi(argv[3]);
  shards = (unsigned)atoi(argv[4]);
  uint64_t h = shard * 1000003u + 99;
  for (const char *s = argv[1]; *s; s++)
    h = h * 31 + (uint8_t)*s;
  common_init(argc, argv, h);
  vals_init();
  static uint8_t stk[65536];
  stack_t ss = {.ss_sp = stk, .ss_size = sizeof(stk)};
  sigaltstack(&ss, NULL);
  struct sigaction sa = {.sa_sigaction = on_fault,
                         .sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER};
  sigaction(SIGSEGV, &sa, NULL);
  sigaction(SIGBUS, &sa, NULL);
  sigaction(SIGILL, &sa, NULL);
  uint64_t amount = strtoull(argv[2], 0, 0);
  const char *ph = argv[1];
  rec_what("%s", ph);
  if (!strcmp(ph, "guard"))
    ph_guard(amount);
  else if (!strcmp(ph, "page"))
    ph_page(amount);
  else if (!strcmp(ph, "zero"))
    ph_zero(amount);
  else if (!strcmp(ph, "extra"))
    ph_extra(amount);
  else if (!strcmp(ph, "ctx"))
    ph_ctx(amount);
  else if (!strcmp(ph, "pow"))
    ph_pow(amount);
  else if (!strcmp(ph, "small")) { /* everything, for slow platforms */
    ph_zero(1);
    ph_extra(1);
    ph_ctx(amount * 100);
    ph_page(amount);
    ph_guard(amount);
  } else
    die("phase %s", ph);
  stat_out("calls", n_calls);
  stat_out("placements", n_places + n_zero);
  stat_out("zero_length_bad_pointers", n_zero);
  stat_out("canary_scans", n_canary);
  stat_out("extra_result_stores_verified", n_stored);
  return 0;
}
