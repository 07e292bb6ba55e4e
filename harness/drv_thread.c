/* Thread-safety, reentrancy, no hidden state.
 *   drv_thread threads ROUNDS NTHREADS
 *   drv_thread nested SHARD NSHARDS SCALE
 *   drv_thread state N */
#include "common.h"
#include "step.h"
#include <pthread.h>
#include <sched.h>

/* ---- cases with the results of the model */
typedef struct {
  int id;
  uint32_t off, len;
  uint64_t seed, seed2, lo, hi;
} tcase;
static tcase *T;
static unsigned NT;
static uint8_t *DATA;
static unsigned n_long;
#define DSZ (9u << 20)
static const char *const SC[] = {
    "t1ha2_atonce", "t1ha2_atonce128", "t1ha2_stream", "t1ha1_le", "t1ha1_be",
    "t1ha0_32le",   "t1ha0_32be",      "t1ha0",        "t1ha2", "t1ha1",
    "t1ha0_ia32aes_noavx", "all_enabled"};

static void make_cases(unsigned n) {
  DATA = malloc(DSZ + 64);
  rnd_fill(DATA, DSZ + 64);
  n_long = 0;
  T = calloc(n, sizeof(*T));
  while (NT < n) {
    tcase *t = T + NT;
    t->id = (int)rndn(G_MAX);
    if (!g_targets[t->id].present || !cpu_can(t->id))
      continue;
    t->len = (uint32_t)(rndn(3) ? rndn(200) : rndn(3000));
    if (NT % 100 == 99) { /* of every order of magnitude */
      unsigned b = 12 + n_long++ % 11;
      t->len = (uint32_t)((1u << b) + rndn(1u << b));
    }
    t->off = (uint32_t)rndn((t->len < 8192 ? 16384 : DSZ) - t->len);
    t->seed = any_seed();
    t->seed2 = any_seed();
    m_res m = m_hash(g_targets[t->id].alg, DATA + t->off, t->len, t->seed,
                     t->seed2);
    t->lo = m.lo, t->hi = m.hi;
    NT++;
  }
}
static bool has_hi(int id) { return id == G_2_128 || id == G_2S_128; }
static bool run_case(const tcase *t, uint64_t *lo, uint64_t *hi) {
  *hi = 0;
  *lo = g_call(t->id, DATA + t->off, t->len, t->seed, t->seed2,
               has_hi(t->id) ? hi : NULL);
  return *lo == t->lo && (!has_hi(t->id) || *hi == t->hi);
}

/* ---- threads */
static unsigned rounds;
static pthread_barrier_t bar;
typedef struct {
  unsigned k;
  uint64_t calls, bad, sc, ups, badcase;
  uint64_t glo, ghi;
} thr_t;
static volatile int flip_stop;
static uint8_t *flipbuf;

static void *worker(void *x) {
  thr_t *me = x;
  rng_t r;
  rng_seed(&r, 77 + me->k + T[me->k].seed);
  enum { NC = 3 };
  _Alignas(64) uint8_t ctx[NC][256];
  uint32_t done[NC];
  const tcase *cur[NC];
  for (unsigned round = 0; round < rounds; round++) {
    pthread_barrier_wait(&bar);
    for (int c = 0; c < NC; c++)
      cur[c] = NULL;
    for (unsigned i = 0; i < 400; i++) {
      uint64_t v = rng_next(&r);
      const tcase *t = &T[(v >> 8) % NT];
      uint64_t lo, hi;
      if ((v & 255) == 0) {
        int rc = 0;
        if (g_selfcheck(SC[(v >> 40) % 12], &rc)) {
          me->sc++;
          if (rc)
            me->bad++, me->badcase = ~0ull;
        }
      } else if ((v & 3) && g_ctx_size && g_ctx_size <= 256) {
        /* one step of one of the own contexts */
        int c = (int)((v >> 3) % NC);
        if (!cur[c]) {
          if (t->id != G_2S_64 && t->id != G_2S_128)
            goto plain;
          cur[c] = t;
          done[c] = 0;
          g_init(ctx[c], t->seed, t->seed2);
        } else {
          const tcase *u = cur[c];
          uint32_t n = u->len - done[c];
          if (n) {
            uint32_t m = (uint32_t)((v >> 20) % 70);
            if (u->len > 4096 && (v & 16))
              m = (v >> 20) % 5 * (u->len / 4 + 1);
            if (m > n)
              m = n;
            g_update(ctx[c], DATA + u->off + done[c], m);
            done[c] += m;
            me->ups++;
          } else {
            hi = 0;
            lo = g_final(ctx[c], has_hi(u->id) ? &hi : NULL);
            me->calls++;
            if (lo != u->lo || (has_hi(u->id) && hi != u->hi))
              me->bad++, me->badcase = u - T, me->glo = lo, me->ghi = hi;
            cur[c] = NULL;
          }
        }
      } else {
      plain:
        if (!run_case(t, &lo, &hi))
          me->bad++, me->badcase = t - T, me->glo = lo, me->ghi = hi;
        me->calls++;
        if ((v & 0xFF00000000ull) == 0 && g_runtime_select && !g_resolve())
          me->bad++, me->badcase = ~1ull;
      }
    }
  }
  return NULL;
}

/* the bytes around an input change all the time, the input does not */
static void *flipper(void *x) {
  uint64_t n = 0;
  while (!flip_stop) {
    n++;
    for (unsigned i = 0; i < 64; i += 1)
      ((volatile uint8_t *)flipbuf)[i] = (uint8_t)(n * 31 + i);
    for (unsigned i = 64 + 100; i < 64 + 100 + 64; i++)
      ((volatile uint8_t *)flipbuf)[i] = (uint8_t)(n * 17 + i);
  }
  *(uint64_t *)x = n;
  return NULL;
}

static void do_threads(unsigned nthr) {
  make_cases(3000);
  pthread_barrier_init(&bar, 0, nthr);
  pthread_t th[64];
  static thr_t w[64];
  rec_case("threads", 0, nthr, 0, 0);
  for (unsigned i = 0; i < nthr; i++) {
    w[i].k = i;
    if (pthread_create(&th[i], 0, worker, &w[i]))
      die("pthread_create");
  }
  uint64_t calls = 0, ups = 0, sc = 0;
  for (unsigned i = 0; i < nthr; i++) {
    pthread_join(th[i], 0);
    calls += w[i].calls;
    ups += w[i].ups;
    sc += w[i].sc;
    if (w[i].bad) {
      const tcase *t = w[i].badcase < NT ? T + w[i].badcase : NULL;
      fail(t ? g_targets[t->id].name : "selfcheck",
           "thread %u: %" PRIu64 " wrong results, e.g. len=%u off=%u "
           "seed=%#" PRIx64 ",%#" PRIx64 " got %#" PRIx64 ":%#" PRIx64
           " alone %#" PRIx64 ":%#" PRIx64,
           i, w[i].bad, t ? t->len : 0, t ? t->off : 0, t ? t->seed : 0,
           t ? t->seed2 : 0, w[i].glo, w[i].ghi, t ? t->lo : 0, t ? t->hi : 0);
    }
  }
  stat_out("threaded_results", calls);
  stat_out("threaded_updates", ups);
  stat_out("threaded_selfchecks", sc);
  stat_out("threads", nthr);
#ifndef NO_FLIP
  flipbuf = malloc(64 + 100 + 64);
  rnd_fill(flipbuf, 228);
  pthread_t fl;
  uint64_t flips = 0;
  if (pthread_create(&fl, 0, flipper, &flips))
    die("pthread_create");
  uint64_t fc = 0;
  for (unsigned i = 0; i < 40 * rounds * 8 && !enough(); i++) {
    int id = (int)rndn(G_MAX);
    if (!g_targets[id].present || !cpu_can(id))
      continue;
    unsigned a = (unsigned)rndn(3) ? (unsigned)rndn(40) : 0;
    unsigned b = (unsigned)rndn(3) ? (unsigned)rndn(40) : 0;
    uint64_t s = rnd(), s2 = rnd(), hi = 0;
    if (rndn(2))
      b = 100 - a - (unsigned)rndn(20);
    size_t n = 100 - a - b;
    /* the flipped bytes are adjacent only when a or b is 0 */
    const uint8_t *p = flipbuf + 64 + a;
    rec_case(g_targets[id].name, p, n, s, s2);
    uint64_t lo = g_call(id, p, n, s, s2, has_hi(id) ? &hi : NULL);
    m_res m = m_hash(g_targets[id].alg, p, n, s, s2);
    if (lo != m.lo || (has_hi(id) && hi != m.hi))
      fail(g_targets[id].name,
           "the result depends on bytes next to the input which another "
           "thread writes: len=%zu addr%%16=%u",
           n, (unsigned)((uintptr_t)p & 15));
    fc++;
  }
  flip_stop = 1;
  pthread_join(fl, 0);
  stat_out("calls_next_to_writes", fc);
#endif
}

/* ---- the library's writable data */
#ifdef WITH_MARKS
long *mark_a_p(int), *mark_b_p(int);
static struct {
  uint8_t *p;
  size_t n;
  uint8_t *copy;
} reg[4];
static const char *const reg_name[4] = {".data", ".bss", ".tdata", ".tbss"};
static void regs_init(void) {
  for (int k = 0; k < 4; k++) {
    uint8_t *a = (uint8_t *)(mark_a_p(k) + 2), *b = (uint8_t *)mark_b_p(k);
    if (b < a)
      die("marks %d", k);
    reg[k].p = a;
    reg[k].n = (size_t)(b - a);
    reg[k].copy = malloc(reg[k].n + 1);
    memcpy(reg[k].copy, a, reg[k].n);
    printf("NOTE the library's %s: %zu bytes\n", reg_name[k], reg[k].n);
  }
}
static bool regs_changed(int *k) {
  for (*k = 0; *k < 4; ++*k)
    if (memcmp(reg[*k].p, reg[*k].copy, reg[*k].n))
      return true;
  return false;
}
#else
static const char *const reg_name[4];
static void regs_init(void) {}
static bool regs_changed(int *k) {
  *k = 0;
  return false;
}
#endif

/* ---- nested calls at every instruction boundary */
static uint64_t n_steps, n_nested;
static unsigned rot;
static const tcase *outer;
static int nested_bad = -1, state_bad = -1;
static uint64_t nested_lo;
static uintptr_t nested_pc;
static int mode_n;
static _Alignas(64) uint8_t nctx[256];
static void on_step(ucontext_t *u) {
  n_steps++;
  int k;
  if (state_bad < 0 && regs_changed(&k))
    state_bad = k, nested_pc = UC_PC(u);
  /* the nested call: another case of (mostly) the same function or any */
  const tcase *t = &T[rot++ % NT];
  uint64_t lo, hi;
  if ((rot & 7) == 3 && g_ctx_size) {
    /* a part of a streaming history, continued at later instructions */
    static const tcase *cur;
    static uint32_t done;
    if (!cur) {
      while (T[rot % NT].id != G_2S_64 && T[rot % NT].id != G_2S_128)
        rot++;
      cur = &T[rot % NT];
      done = 0;
      g_init(nctx, cur->seed, cur->seed2);
    } else if (done < cur->len) {
      uint32_t m = 1 + rot % 61;
      if (m > cur->len - done)
        m = cur->len - done;
      g_update(nctx, DATA + cur->off + done, m);
      done += m;
    } else {
      hi = 0;
      lo = g_final(nctx, has_hi(cur->id) ? &hi : NULL);
      if (nested_bad < 0 &&
          (lo != cur->lo || (has_hi(cur->id) && hi != cur->hi)))
        nested_bad = (int)(cur - T), nested_lo = lo, nested_pc = UC_PC(u);
      cur = NULL;
      n_nested++;
    }
    return;
  }
  if (!run_case(t, &lo, &hi) && nested_bad < 0)
    nested_bad = (int)(t - T), nested_lo = lo, nested_pc = UC_PC(u);
  n_nested++;
  if ((rot & 63) == 0 && g_runtime_select)
    g_resolve();
}
static __attribute__((noinline)) uint64_t step_case(const tcase *t,
                                                    uint64_t *hi) {
  uint64_t r;
  step_begin();
  r = g_call(t->id, DATA + t->off, t->len, t->seed, t->seed2,
             has_hi(t->id) ? hi : NULL);
  step_end();
  return r;
}
static __attribute__((noinline)) int step_sc(const char *n, int *rc) {
  int r;
  step_begin();
  r = g_selfcheck(n, rc);
  step_end();
  return r;
}
static void nested_judge(const char *name) {
  if (nested_bad >= 0) {
    fail(g_targets[T[nested_bad].id].name,
         "called by a signal handler which interrupts %s at %#lx: len=%u got "
         "%#" PRIx64 " alone %#" PRIx64,
         name, (unsigned long)nested_pc, T[nested_bad].len, nested_lo,
         T[nested_bad].lo);
    nested_bad = -1;
  }
  if (state_bad >= 0) {
    fail(name, "writes to static data (%s)", reg_name[state_bad]);
    state_bad = -1;
  }
}
static void do_nested(unsigned shard, unsigned nsh, unsigned scale) {
  make_cases(4000);
  /* short nested cases only: fast */
  unsigned n = 0;
  for (unsigned i = 0; i < NT; i++)
    if (T[i].len < 150)
      T[n++] = T[i];
  NT = n;
  regs_init();
  rot = shard * 1000;
  step_install(on_step, 1);
  uint64_t outers = 0;
  for (unsigned k = 0; k < 420 * scale && !enough(); k++) {
    if (k % nsh != shard)
      continue;
    const tcase *t = &T[(k * 7 + 11) % NT];
    uint64_t lo, hi = 0, h2;
    outer = t;
    rec_case(g_targets[t->id].name, DATA + t->off, t->len, t->seed, t->seed2);
    lo = step_case(t, &hi);
    outers++;
    if (lo != t->lo || (has_hi(t->id) && hi != t->hi))
      fail(g_targets[t->id].name,
           "interrupted at every instruction by other calls: len=%u got "
           "%#" PRIx64 ":%#" PRIx64 " alone %#" PRIx64 ":%#" PRIx64,
           t->len, lo, hi, t->lo, t->hi);
    nested_judge(g_targets[t->id].name);
    (void)h2;
  }
  if (shard == 0) {
    int rc;
    rec_case("selfcheck_t1ha2_stream", 0, 0, 0, 0);
    if (step_sc("t1ha2_stream", &rc)) {
      if (rc)
        fail("selfcheck_t1ha2_stream", "fails when interrupted: %d", rc);
      nested_judge("selfcheck_t1ha2_stream");
      stat_out("stepped_selfchecks", 1);
    }
  }
  if (outers)
    printf("SAMPLE %s len=%u was interrupted at each of its instructions\n",
           g_targets[outer->id].name, outer->len);
  stat_out("interrupted_calls", outers);
  stat_out("interruption_points", n_steps);
  stat_out("nested_calls", n_nested);
}

/* ---- the first call of t1ha0() through the pointer, interrupted */
#ifdef WITH_MARKS
static uint64_t (*volatile first_ptr)(const void *, size_t, uint64_t);
static void pre(int a, char **b, char **c) {
  (void)a, (void)b, (void)c;
  if (g_t0_pointer)
    first_ptr = *g_t0_pointer;
}
__attribute__((section(".preinit_array"), used)) static void (*pp)(
    int, char **, char **) = pre;

static void on_first(ucontext_t *u) {
  n_steps++;
  const tcase *t = &T[rot++ % NT];
  uint64_t lo, hi;
  if (!run_case(t, &lo, &hi) && nested_bad < 0)
    nested_bad = (int)(t - T), nested_lo = lo, nested_pc = UC_PC(u);
  n_nested++;
  if (rot & 1)
    *g_t0_pointer = first_ptr; /* as if not yet called */
}
static void do_first(unsigned n) {
  if (!g_t0_pointer || !first_ptr) {
    stat_out("sequential_calls", 1);
    return;
  }
  make_cases(6000);
  unsigned m = 0;
  for (unsigned i = 0; i < NT; i++)
    if (T[i].id == G_T1HA0 && T[i].len && T[i].len < 150)
      T[m++] = T[i];
  NT = m;
  step_install(on_first, 1);
  for (unsigned k = 0; k < n && !enough(); k++) {
    const tcase *t = &T[(k * 7 + 11) % NT];
    uint64_t hi = 0, lo;
    *g_t0_pointer = first_ptr;
    rec_case("t1ha0", DATA + t->off, t->len, t->seed, 0);
    lo = step_case(t, &hi);
    if (lo != t->lo)
      fail("t1ha0:first", "the first call returns %#" PRIx64 ", must be %#"
           PRIx64, lo, t->lo);
    nested_judge("t1ha0:first");
  }
  stat_out("interrupted_calls", n);
  stat_out("interruption_points", n_steps);
  stat_out("nested_calls", n_nested);
  stat_out("first_calls", n);
}
#endif

/* ---- order independence and static data, long sequential histories */
static void do_state(unsigned n) {
  make_cases(3000);
  regs_init();
  uint64_t calls = 0;
  int k;
  for (unsigned i = 0; i < n && !enough(); i++) {
    /* repetitions and alternations are more frequent than by chance */
    const tcase *t = &T[rndn(3) ? rndn(NT) : rndn(1 + i % 7)];
    unsigned reps = rndn(4) ? 1 : 1 + (unsigned)rndn(5);
    while (reps--) {
      uint64_t lo, hi;
      rec_case(g_targets[t->id].name, DATA + t->off, t->len, t->seed, t->seed2);
      if (!run_case(t, &lo, &hi))
        fail(g_targets[t->id].name,
             "depends on the previous calls: len=%u got %#" PRIx64
             ":%#" PRIx64 ", must be %#" PRIx64 ":%#" PRIx64,
             t->len, lo, hi, t->lo, t->hi);
      calls++;
      if (regs_changed(&k)) {
        fail(g_targets[t->id].name, "has changed static data (%s)",
             reg_name[k]);
        return;
      }
    }
    if ((i & 1023) == 7) {
      int rc = 0;
      if (g_selfcheck(SC[rndn(12)], &rc) && rc)
        fail("selfcheck", "fails after other calls");
      if (g_runtime_select)
        g_resolve();
      if (regs_changed(&k))
        fail("selfcheck", "has changed static data (%s)", reg_name[k]);
    }
  }
  stat_out("sequential_calls", calls);
}

int main(int argc, char **argv) {
  common_init(argc, argv, 0xC10);
  vals_init();
  if (argc > 3 && !strcmp(argv[1], "threads")) {
    rounds = atoi(argv[2]);
    do_threads(atoi(argv[3]));
  } else if (argc > 4 && !strcmp(argv[1], "nested"))
    do_nested(atoi(argv[2]), atoi(argv[3]), atoi(argv[4]));
#ifdef WITH_MARKS
  else if (argc > 2 && !strcmp(argv[1], "first"))
    do_first(atoi(argv[2]));
#endif
  else if (argc > 2 && !strcmp(argv[1], "state"))
    do_state(atoi(argv[2]));
  else
    die("usage");
  fflush(NULL);
  return 0;
}
