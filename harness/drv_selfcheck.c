/* Fault injection into the hash functions: their entries are overwritten with
 * jumps to stand-ins which return the right values except for the injected
 * fault; then the real self-checks run.
 *   drv_selfcheck SHARD NSHARDS THOROUGH */
#include "common.h"
#include <sys/wait.h>

enum { K_2_64, K_2_128, K_S64, K_S128, K_1LE, K_1BE, K_LE, K_BE, K_NA, K_A,
       K_A2, K_MAX };
static const char *const kn[K_MAX] = {
    "t1ha2_atonce", "t1ha2_atonce128", "t1ha2-stream", "t1ha2-stream128",
    "t1ha1_le", "t1ha1_be", "t1ha0_32le", "t1ha0_32be", "t1ha0_ia32aes_noavx",
    "t1ha0_ia32aes_avx", "t1ha0_ia32aes_avx2"};
static const int kalg[K_MAX] = {M_2_64, M_2_128, M_2S_64, M_2S_128,
                                M_1_LE, M_1_BE, M_0_32LE, M_0_32BE,
                                M_AES_A, M_AES_A, M_AES_B};
static unsigned enabled; /* mask of the functions that are compiled in */

/* ---- the fault in effect: per function a list of wrong values */
static struct {
  uint8_t hit[81];      /* 0: right, else the value is changed by mask */
  uint64_t mask[81];    /* xor */
  uint64_t add[81];     /* then added */
  int konst;            /* all results are this value */
  uint64_t kval;
  unsigned calls;
} flt[K_MAX];
static uint8_t seen_vec[K_MAX][81];
static uint64_t n_stub, n_other;

static int vec_of(const void *p, size_t n, uint64_t seed) {
  for (int i = 0; i < 81; i++)
    if (m_vectors[i].len == n && m_vectors[i].seed == seed &&
        (!n || !memcmp(p, m_vectors[i].data, n)))
      return i;
  return -1;
}
static uint64_t stub(int k, const void *p, size_t n, uint64_t s, uint64_t *hi) {
  int v = vec_of(p, n, s);
  uint64_t r;
  n_stub++;
  flt[k].calls++;
  static uint64_t hic[K_MAX][81];
  static uint8_t hik[K_MAX][81];
  if (v < 0 || (hi && !hik[k][v])) {
    m_res m = m_hash(kalg[k], p, n, s, s);
    r = m.lo;
    if (hi)
      *hi = m.hi;
    if (v >= 0)
      hic[k][v] = m.hi, hik[k][v] = 1;
  } else {
    r = m_golden[kalg[k]][v];
    if (hi)
      *hi = hic[k][v];
  }
  if (v < 0) {
    n_other++;
    return r;
  }
  seen_vec[k][v] = 1;
  if (flt[k].konst)
    return flt[k].kval;
  if (flt[k].hit[v])
    r = (r ^ flt[k].mask[v]) + flt[k].add[v];
  return r;
}
static uint64_t st_2_64(const void *p, size_t n, uint64_t s) {
  return stub(K_2_64, p, n, s, 0);
}
static uint64_t st_2_128(uint64_t *hi, const void *p, size_t n, uint64_t s) {
  return stub(K_2_128, p, n, s, hi);
}
#define PL(nm, k)                                                              \
  static uint64_t nm(const void *p, size_t n, uint64_t s) {                    \
    return stub(k, p, n, s, 0);                                                \
  }
PL(st_1le, K_1LE)
PL(st_1be, K_1BE)
PL(st_le, K_LE)
PL(st_be, K_BE)
PL(st_na, K_NA)
PL(st_a, K_A)
PL(st_a2, K_A2)
/* streams: what was given is collected per context */
typedef struct {
  const void *ctx;
  uint64_t x, y;
  size_t n;
  uint8_t buf[1024];
} scol;
static scol col[16];
static unsigned col_next;
static scol *col_of(const void *c) {
  for (int i = 0; i < 16; i++)
    if (col[i].ctx == c)
      return col + i;
  return NULL;
}
static void st_init(void *c, uint64_t x, uint64_t y) {
  scol *s = col_of(c);
  if (!s)
    s = &col[col_next++ % 16];
  s->ctx = c, s->x = x, s->y = y, s->n = 0;
  memset(c, 0xEE, g_ctx_size);
}
static void st_update(void *c, const void *p, size_t n) {
  scol *s = col_of(c);
  if (!s || s->n + n > sizeof(s->buf))
    die("stream stand-in");
  if (n)
    memcpy(s->buf + s->n, p, n);
  s->n += n;
}
static uint64_t st_final(void *c, uint64_t *hi) {
  scol *s = col_of(c);
  if (!s)
    die("stream stand-in");
  if (s->x != s->y) {
    m_res m = m_hash(hi ? M_2S_128 : M_2S_64, s->buf, s->n, s->x, s->y);
    if (hi)
      *hi = m.hi;
    return m.lo;
  }
  return stub(hi ? K_S128 : K_S64, s->buf, s->n, s->x, hi);
}

static void patch(const char *name, void *to) {
  uint8_t *p = g_addr(name);
  if (!p)
    return;
  uintptr_t a = (uintptr_t)p & ~(uintptr_t)(PG - 1);
  if (mprotect((void *)a, 2 * PG, PROT_READ | PROT_WRITE | PROT_EXEC))
    die("mprotect text: %s", strerror(errno));
  int32_t d = (int32_t)((uint8_t *)to - (p + 5));
  if (p + 5 + d != (uint8_t *)to)
    die("jump distance");
  p[0] = 0xE9;
  memcpy(p + 1, &d, 4);
  __builtin___clear_cache((char *)p, (char *)p + 5);
}

/* ---- the checks and what each must cover */
static const struct {
  const char *sc;
  unsigned cover;
  int leaf;
} checks[] = {
    {"t1ha2_atonce", 1u << K_2_64, 1},
    {"t1ha2_atonce128", 1u << K_2_128, 1},
    {"t1ha2_stream", 1u << K_S64 | 1u << K_S128, 1},
    {"t1ha2", 1u << K_2_64 | 1u << K_2_128 | 1u << K_S64 | 1u << K_S128, 1},
    {"t1ha1_le", 1u << K_1LE, 1},
    {"t1ha1_be", 1u << K_1BE, 1},
    {"t1ha1", 1u << K_1LE | 1u << K_1BE, 1},
    {"t1ha0_32le", 1u << K_LE, 1},
    {"t1ha0_32be", 1u << K_BE, 1},
    {"t1ha0_ia32aes_noavx", 1u << K_NA, 1},
    {"t1ha0_ia32aes_avx", 1u << K_A, 1},
    {"t1ha0_ia32aes_avx2", 1u << K_A2, 1},
    /* completed in main() */
    {"t1ha0", 1u << K_LE | 1u << K_BE | 1u << K_NA | 1u << K_A | 1u << K_A2, 0},
    {"all_enabled", ~0u, 0},
};
enum { NCHK = sizeof(checks) / sizeof(*checks) };
static unsigned cover[NCHK], runnable;

static uint64_t n_faults, n_runs;
static int brief; /* leave most of the unaffected checks out */
static void run_all(unsigned faulty, const char *what) {
  rec_what("%s", what);
  n_faults++;
  for (unsigned i = 0; i < NCHK; i++) {
    int rc;
    unsigned c = cover[i] & enabled;
    if (!c || (brief && !(c & faulty) && (n_faults + i) % 16))
      continue;
    rec_case(checks[i].sc, 0, 0, faulty, 0);
    if (!g_selfcheck(checks[i].sc, &rc))
      continue;
    n_runs++;
    if ((c & faulty) && rc != -1)
      fail(checks[i].sc, "returns %d although %s", rc, what);
    if (!(c & faulty) && rc && (checks[i].leaf || !faulty))
      fail(checks[i].sc, "returns %d although its functions are right (%s)",
           rc, what);
    if (enough())
      return;
  }
}
static void clear(void) { memset(flt, 0, sizeof(flt)); }
static char txt[200];

int main(int argc, char **argv) {
  if (argc < 4)
    die("usage");
  unsigned shard = atoi(argv[1]), nsh = atoi(argv[2]), th = atoi(argv[3]);
  common_init(argc, argv, 0xC11);
  vals_init();
  static const int gid[K_MAX] = {G_2_64, G_2_128, G_2S_64, G_2S_128,
                                 G_1_LE, G_1_BE, G_0_32LE, G_0_32BE,
                                 G_NOAVX, G_AVX, G_AVX2};
  for (int k = 0; k < K_MAX; k++)
    if (g_targets[gid[k]].present && cpu_can(gid[k]))
      enabled |= 1u << k;
  for (unsigned i = 0; i < NCHK; i++) {
    cover[i] = checks[i].cover;
    /* the variant which t1ha0 selects on CPUs without AES-NI */
    if (!strcmp(checks[i].sc, "t1ha0") && sizeof(void *) == 8)
      cover[i] |= enabled >> K_1LE & 1 ? 1u << K_1LE
                  : enabled >> K_2_64 & 1 ? 1u << K_2_64 : 0;
    if (!g_t0_present && !strcmp(checks[i].sc, "t1ha0"))
      cover[i] = 0;
  }
  int any = 0, rc0;
  for (unsigned i = 0; i < NCHK; i++)
    any += (cover[i] & enabled) && g_selfcheck(checks[i].sc, &rc0);
  if (!any)
    die("no self-checks are linked");
  /* 1. the real functions */
  clear();
  run_all(0, "nothing is patched");

  patch("t1ha2_atonce", st_2_64);
  patch("t1ha2_atonce128", st_2_128);
  patch("t1ha2_init", st_init);
  patch("t1ha2_update", st_update);
  patch("t1ha2_final", st_final);
  patch("t1ha1_le", st_1le);
  patch("t1ha1_be", st_1be);
  patch("t1ha0_32le", st_le);
  patch("t1ha0_32be", st_be);
  patch("t1ha0_ia32aes_noavx", st_na);
  patch("t1ha0_ia32aes_avx", st_a);
  patch("t1ha0_ia32aes_avx2", st_a2);
  /* 2. right stand-ins, all pass; each vector is consulted */
  run_all(0, "the stand-ins return the right values");
  if (!n_fails)
    for (int k = 0; k < K_MAX; k++)
      if (enabled >> k & 1) {
        if (!flt[k].calls)
          fail(kn[k], "is never called by the self-checks");
        for (int v = 0; flt[k].calls && v < 81; v++)
          if (!seen_vec[k][v]) {
            fail(kn[k], "the vector %d is never tried", v);
            break;
          }
      }
  uint64_t single = 0, subsets = 0, multi = 0;
  brief = 1;
  /* 3. one vector wrong, every vector x every bit and other differences */
  for (int k = 0; k < K_MAX && !enough(); k++) {
    if (!(enabled >> k & 1))
      continue;
    for (unsigned v = 0; v < 81; v++) {
      if ((v + k) % nsh != shard)
        continue;
      for (unsigned m = 0; m < 64 + 14 + (th ? 200 : 0) && !enough(); m++) {
        clear();
        flt[k].hit[v] = 1;
        uint64_t g = m_golden[kalg[k]][v];
        if (m < 64)
          flt[k].mask[v] = (uint64_t)1 << m;
        else
          switch (m - 64) {
          case 0: flt[k].mask[v] = ~0ull; break;
          case 1: flt[k].mask[v] = 0xFFFFFFFF00000000ull; break;
          case 2: flt[k].mask[v] = 0xFFFFFFFFull; break;
          case 3: flt[k].add[v] = 1; break;
          case 4: flt[k].add[v] = ~0ull; break;
          case 5: flt[k].add[v] = 0x100000000ull; break;
          case 6: flt[k].mask[v] = g ? g : 1; break; /* returns 0 */
          case 7: flt[k].mask[v] = g ^ __builtin_bswap64(g);
                  if (!flt[k].mask[v]) flt[k].mask[v] = 1;
                  break;
          case 8: flt[k].mask[v] = g ^ (g << 32 | g >> 32);
                  if (!flt[k].mask[v]) flt[k].mask[v] = 1;
                  break;
          case 9: flt[k].mask[v] = g ^ (uint32_t)g;
                  if (!flt[k].mask[v]) flt[k].mask[v] = 1;
                  break;
          case 10: flt[k].mask[v] = g ^ (uint64_t)(int64_t)(int32_t)g;
                  if (!flt[k].mask[v]) flt[k].mask[v] = 1;
                  break;
          case 11: flt[k].mask[v] = 0x8000000080000000ull; break;
          case 12: flt[k].mask[v] = 0x0101010101010101ull; break;
          case 13: /* the value of the next vector */
            flt[k].mask[v] = g ^ m_golden[kalg[k]][(v + 1) % 81];
            break;
          default: flt[k].mask[v] = rnd() | 1;
          }
        snprintf(txt, sizeof(txt),
                 "%s is wrong for the vector %u by xor %#" PRIx64
                 " add %#" PRIx64, kn[k], v, flt[k].mask[v], flt[k].add[v]);
        run_all(1u << k, txt);
        single++;
      }
    }
  }
  /* 4. several vectors wrong, in ways that could cancel out */
  for (int k = 0; k < K_MAX && !enough(); k++) {
    if (!(enabled >> k & 1))
      continue;
    for (unsigned m = 0; m < (th ? 4000u : 400u) && !enough(); m++) {
      clear();
      uint64_t x = rndn(2) ? rnd() | 1 : (uint64_t)1 << rndn(64);
      unsigned a = (unsigned)rndn(81), b = (unsigned)rndn(81);
      if (a == b)
        b = (a + 1) % 81;
      switch (m % 6) {
      case 0: /* the same difference twice */
        flt[k].hit[a] = flt[k].hit[b] = 1;
        flt[k].mask[a] = flt[k].mask[b] = x;
        break;
      case 1: /* the sum is zero */
        flt[k].hit[a] = flt[k].hit[b] = 1;
        flt[k].add[a] = x, flt[k].add[b] = 0 - x;
        break;
      case 2: /* all of them */
        for (int v = 0; v < 81; v++)
          flt[k].hit[v] = 1, flt[k].mask[v] = x;
        break;
      case 3: /* a suffix, a prefix */
        for (int v = 0; v < 81; v++)
          if ((unsigned)v >= a) {
            flt[k].hit[v] = 1;
            flt[k].mask[v] = x;
          }
        break;
      case 4: /* all results are the same */
        flt[k].konst = 1;
        flt[k].kval = rndn(3) ? 0 : m_golden[kalg[k]][a];
        break;
      case 5: /* a random subset */
        for (int v = 0; v < 81; v++)
          if (rndn(4) == 0)
            flt[k].hit[v] = 1, flt[k].mask[v] = rnd() | 1;
        flt[k].hit[a] = 1, flt[k].mask[a] = x;
      }
      snprintf(txt, sizeof(txt), "%s is wrong for several vectors (kind %u)",
               kn[k], m % 6);
      run_all(1u << k, txt);
      multi++;
    }
  }
  brief = 0;
  /* 5. all the subsets of wrong functions */
  for (unsigned s = 1; s < 1u << K_MAX && !enough(); s++) {
    if ((s & ~enabled) || s % nsh != shard)
      continue;
    for (unsigned m = 0; m < (th ? 8u : 2u); m++) {
      clear();
      unsigned same = (unsigned)rndn(81);
      uint64_t x = (uint64_t)1 << rndn(64);
      for (int k = 0; k < K_MAX; k++)
        if (s >> k & 1) {
          unsigned v = m & 1 ? same : (unsigned)rndn(81);
          flt[k].hit[v] = 1;
          flt[k].mask[v] = m & 1 ? x : (uint64_t)1 << rndn(64);
        }
      snprintf(txt, sizeof(txt), "the functions of the set %#x are wrong", s);
      run_all(s, txt);
      subsets++;
    }
  }
  printf("SAMPLE last fault: %s\n", txt);
  stat_out("faults_single_vector", single);
  stat_out("faults_multi_vector", multi);
  stat_out("fault_subsets_of_functions", subsets);
  stat_out("injections", n_faults);
  stat_out("selfcheck_runs", n_runs);
  stat_out("stub_calls", n_stub);
  stat_out("calls_beyond_vectors", n_other);
  fflush(NULL);
  return 0;
}
