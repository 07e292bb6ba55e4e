/* Shared parts of the drivers: PRNG, crash-safe case record, guard arena,
 * failure reporting.
 *
 * Output protocol (stdout, parsed by lib/engine.py):
 *   FAIL <key> | <details>     a violation, <key> has no spaces
 *   STAT <name> <integer>      a measured count (summed over the processes)
 *   SAMPLE <text>              a concrete case of this run
 *   NOTE <text>
 * Exit codes: 0 finished (violations, if any, are in FAIL lines), 2 harness
 * failure. Anything else is a crash, attributed with the case record. */
#pragma once
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "glue.h"
#include <errno.h>
#include <fcntl.h>
#include <inttypes.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#if defined(__x86_64__) || defined(__i386__)
#include <cpuid.h>
#endif

#define PG 4096u

typedef struct {
  uint64_t seq;
  uint64_t len, seed, seed2, addr;
  char target[48];
  char what[160];
} case_rec;
static case_rec *REC;

static void die(const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  fprintf(stderr, "HARNESS: ");
  vfprintf(stderr, fmt, ap);
  fprintf(stderr, "\n");
  va_end(ap);
  fflush(NULL);
  _exit(2);
}

/* ---- PRNG: xoshiro256** seeded by splitmix64 */
typedef struct {
  uint64_t s[4];
} rng_t;
static rng_t RNG;
static uint64_t splitmix(uint64_t *x) {
  uint64_t z = (*x += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static void rng_seed(rng_t *r, uint64_t x) {
  for (int i = 0; i < 4; i++)
    r->s[i] = splitmix(&x);
}
static uint64_t rng_next(rng_t *r) {
  uint64_t *s = r->s, t = s[1] << 17, x = s[1] * 5;
  x = ((x << 7) | (x >> 57)) * 9;
  s[2] ^= s[0];
  s[3] ^= s[1];
  s[1] ^= s[2];
  s[0] ^= s[3];
  s[2] ^= t;
  s[3] = (s[3] << 45) | (s[3] >> 19);
  return x;
}
static inline uint64_t rnd(void) { return rng_next(&RNG); }
static inline uint64_t rndn(uint64_t n) { return n ? rng_next(&RNG) % n : 0; }
static void rnd_fill(void *p, size_t n) {
  uint8_t *b = p;
  while (n >= 8) {
    uint64_t v = rnd();
    memcpy(b, &v, 8);
    b += 8, n -= 8;
  }
  if (n) {
    uint64_t v = rnd();
    memcpy(b, &v, n);
  }
}

/* ---- reporting */
static unsigned n_fails;
static unsigned max_fails = 12;
/* VERIF_NOFAIL: the driver is only the workload of another monitor */
static int no_fail;
static unsigned long ignored_fails;
static void fail(const char *key, const char *fmt, ...) {
  va_list ap;
  if (no_fail) {
    ignored_fails++;
    return;
  }
  n_fails++;
  printf("FAIL %s | ", key);
  va_start(ap, fmt);
  vprintf(fmt, ap);
  va_end(ap);
  printf("\n");
  fflush(stdout);
}
static inline bool enough(void) { return n_fails >= max_fails; }
static void stat_out(const char *name, uint64_t v) {
  printf("STAT %s %" PRIu64 "\n", name, v);
}
static const char *hexs(const void *p, size_t n) {
  static char buf[4][1400];
  static int k;
  char *o = buf[k++ & 3];
  size_t m = n > 400 ? 400 : n;
  for (size_t i = 0; i < m; i++)
    sprintf(o + 2 * i, "%02x", ((const uint8_t *)p)[i]);
  o[2 * m] = 0;
  if (m < n)
    strcat(o, "...");
  return o;
}

/* ---- case record: survives a crash of this process */
static void rec_open(void) {
  const char *path = getenv("VERIF_REC");
  if (path) {
    int fd = open(path, O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, sizeof(case_rec)))
      die("case record %s: %s", path, strerror(errno));
    REC = mmap(0, sizeof(case_rec), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (REC == MAP_FAILED)
      die("mmap case record");
    close(fd);
  } else {
    static case_rec local;
    REC = &local;
  }
  memset(REC, 0, sizeof(*REC));
}
static inline void rec_case(const char *target, const void *p, size_t len,
                            uint64_t seed, uint64_t seed2) {
  REC->seq++;
  REC->len = len;
  REC->seed = seed;
  REC->seed2 = seed2;
  REC->addr = (uintptr_t)p;
  if (strncmp(REC->target, target, sizeof(REC->target) - 1)) {
    memset(REC->target, 0, sizeof(REC->target));
    strncpy(REC->target, target, sizeof(REC->target) - 1);
  }
}
static void rec_what(const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(REC->what, sizeof(REC->what), fmt, ap);
  va_end(ap);
}

/* ---- arena: [guard page][n pages][guard page], guards are PROT_NONE */
typedef struct {
  uint8_t *base; /* first accessible byte */
  uint8_t *end;  /* one past the last accessible byte */
  size_t size;
} arena_t;
static arena_t arena_new(size_t pages) {
  size_t n = pages * PG;
  uint8_t *m = mmap(0, n + 2 * PG, PROT_READ | PROT_WRITE,
                    MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (m == MAP_FAILED)
    die("mmap arena");
  if (mprotect(m, PG, PROT_NONE) || mprotect(m + PG + n, PG, PROT_NONE))
    die("mprotect arena");
  return (arena_t){m + PG, m + PG + n, n};
}
static void arena_prot(arena_t a, int prot) {
  if (mprotect(a.base, a.size, prot))
    die("mprotect");
}

/* the implementation which t1ha0() must use on this machine/configuration */
#if defined(__x86_64__) || defined(__i386__)
static int expected_t1ha0_alg(void) {
  if (g_runtime_select && g_aes_available) {
    unsigned a, b, c, d, max;
    __cpuid_count(0, 0, max, b, c, d);
    __cpuid_count(1, 0, a, b, c, d);
    unsigned aes = c >> 25 & 1, osx = c >> 27 & 1, avx = c >> 28 & 1, avx2 = 0;
    if (aes) {
      if (osx) {
        unsigned lo, hi;
        __asm volatile("xgetbv" : "=a"(lo), "=d"(hi) : "c"(0));
        if ((lo & 6) != 6)
          avx = 0;
      } else
        avx = 0;
      if (max >= 7) {
        __cpuid_count(7, 0, a, b, c, d);
        avx2 = b >> 5 & 1;
      }
      return avx && avx2 ? M_AES_B : M_AES_A;
    }
  }
  if (sizeof(void *) == 8 && (g_t1_present || g_t2_present))
    return g_t1_present ? M_1_LE : M_2_64;
  return M_0_32LE;
}
#endif

static void common_init(int argc, char **argv, uint64_t salt) {
  (void)argc;
  setvbuf(stdout, NULL, _IOFBF, 1 << 16);
  const char *s = getenv("VERIF_SEED");
  rng_seed(&RNG, (s ? strtoull(s, 0, 0) : 1) * 0x9E3779B97F4A7C15ull ^ salt);
  no_fail = getenv("VERIF_NOFAIL") != NULL;
  rec_open();
  int r = m_validate();
  if (r)
    die("the model does not match the frozen vectors (%d)", r);
  g_setup();
#if defined(__x86_64__) || defined(__i386__)
  for (int i = 0; i < G_MAX; i++)
    if (g_targets[i].present && g_targets[i].alg < 0)
      g_targets[i].alg = expected_t1ha0_alg();
#endif
  (void)argv;
}

/* optional features of the CPU the driver runs on, to skip what can't run */
static bool cpu_can(int id) {
#if defined(__x86_64__) || defined(__i386__)
  unsigned a, b, c, d;
  if (id == G_NOAVX || id == G_AVX || id == G_AVX2) {
    __cpuid_count(1, 0, a, b, c, d);
    bool aes = c >> 25 & 1, avx = (c >> 27 & 3) == 3;
    __cpuid_count(7, 0, a, b, c, d);
    bool avx2 = b >> 5 & 1;
    return aes && (id < G_AVX || avx) && (id < G_AVX2 || avx2);
  }
#endif
  (void)id;
  return true;
}

/* ---- interesting 64-bit values */
static uint64_t *VALS;
static size_t NVALS;
static void vals_add(uint64_t v) {
  static size_t cap;
  if (NVALS == cap) {
    cap = cap ? cap * 2 : 1024;
    VALS = realloc(VALS, cap * sizeof(*VALS));
    if (!VALS)
      die("oom");
  }
  VALS[NVALS++] = v;
}
static void vals_init(void) {
  static const uint64_t prim[] = {
      0xEC99BF0D8372CAABull, 0x82434FE90EDCEF39ull, 0xD4F06DB99D67BE4Bull,
      0xBD9CACC22C6E9571ull, 0x9C06FAF4D023E3ABull, 0xC060724A8424F345ull,
      0xCB5AF53AE3AAAC31ull, 0x92D78269u, 0xCA9B4735u, 0xA4ABA1C3u,
      0xF6499843u, 0x86F0FD61u, 0xCA2DA6FBu, 0xC4BB3575u};
  for (int k = 0; k < 64; k++) {
    uint64_t b = (uint64_t)1 << k;
    vals_add(b);
    vals_add(b - 1);
    vals_add(~b);
    vals_add(~(b - 1));
    if (k % 8 == 0)
      vals_add(b + 1);
  }
  for (unsigned i = 0; i < sizeof(prim) / sizeof(*prim); i++) {
    vals_add(prim[i]);
    vals_add(~prim[i]);
    vals_add(0 - prim[i]);
  }
  for (int b = 0; b < 256; b += 15)
    vals_add(b * 0x0101010101010101ull);
  vals_add(0xFFFFFFFF00000000ull);
  vals_add(0xFFFFFFFFull);
  vals_add(0x100000000ull);
  vals_add(0x8000000080000000ull);
  vals_add(0x7FFFFFFF7FFFFFFFull);
  vals_add(0x7FFFFFFFull);
  vals_add(0xAAAAAAAAAAAAAAAAull);
  vals_add(0xDEADBEEFull);
  vals_add(0xDEADBEEFDEADBEEFull);
  vals_add(0xCAFEBABEull);
  vals_add(0x0123456789ABCDEFull);
  vals_add(42);
}
static void vals_load(const char *path) {
  FILE *f = path && *path ? fopen(path, "r") : NULL;
  if (!f)
    return;
  unsigned long long v;
  while (fscanf(f, "%llx", &v) == 1) {
    vals_add(v);
    vals_add(v + 1);
    vals_add(v - 1);
  }
  fclose(f);
}
static uint64_t val(void) { return VALS[rndn(NVALS)]; }
/* a second seed, often related to the first one */
static inline uint64_t rel_seed(uint64_t s) {
  uint64_t h = (s ^ s >> 29) * 0x9E3779B97F4A7C15ull;
  h ^= h >> 32;
  switch (h % 13) {
  case 0:
  case 1:
    return s;
  case 2:
    return ~s;
  case 3:
    return s >> 32 | s << 32;
  case 4:
    return __builtin_bswap64(s);
  case 5:
    return s ^ 1;
  case 6:
    return s + 1;
  case 7:
    return -s;
  case 8:
    return 0;
  default:
    return (h >> 8) * 0xD1B54A32D192ED03ull;
  }
}
static uint64_t any_seed_(void);
static uint64_t any_seed(void) {
  static _Thread_local uint64_t last;
  return last = rndn(8) ? any_seed_() : rel_seed(last);
}
static uint64_t any_seed_(void) {
  switch (rndn(6)) {
  case 0:
  case 1:
    return rnd();
  case 2:
    return rnd() >> rndn(64);
  case 3:
    return (val() << 32) | (uint32_t)val();
  case 4:
    return val() ^ val();
  default:
    return val();
  }
}

/* ---- data patterns */
static void pattern(uint8_t *p, size_t n, unsigned kind) {
  switch (kind % 12) {
  case 0:
    memset(p, 0, n);
    break;
  case 1:
    memset(p, 0xFF, n);
    break;
  case 2:
    memset(p, (int)rndn(256), n);
    break;
  case 3: { /* counting */
    uint8_t s = (uint8_t)rnd();
    for (size_t i = 0; i < n; i++)
      p[i] = (uint8_t)(s + i);
    break;
  }
  case 4: { /* periodic */
    static const unsigned per[] = {2, 4, 8, 16, 32, 3, 12, 24, 64, 128};
    size_t k = per[rndn(10)];
    rnd_fill(p, n < k ? n : k);
    for (size_t i = k; i < n; i++)
      p[i] = p[i - k];
    break;
  }
  case 5: /* one bit */
    memset(p, rndn(2) ? 0xFF : 0, n);
    if (n) {
      size_t b = rndn(n * 8);
      p[b >> 3] ^= (uint8_t)(1u << (b & 7));
    }
    break;
  case 6: /* words of interest, aligned to 8 */
  case 7:
    for (size_t i = 0; i < n; i += 8) {
      uint64_t v = val();
      memcpy(p + i, &v, n - i < 8 ? n - i : 8);
    }
    break;
  case 8: /* text */
    for (size_t i = 0; i < n; i++)
      p[i] = (uint8_t)(32 + rndn(95));
    break;
  case 9: /* sparse */
    memset(p, 0, n);
    for (size_t k = 0; n && k < 1 + n / 32; k++)
      p[rndn(n)] = (uint8_t)rnd();
    break;
  default:
    rnd_fill(p, n);
  }
}

/* a huge buffer: one memfd of 4 MiB mapped over and over, from any offset */
typedef struct {
  uint8_t *w; /* the 4 MiB themselves, writable */
  int fd;
} huge_t;
#define HUGE_CHUNK ((size_t)4 << 20)

static __attribute__((unused)) huge_t huge_new(void) {
  huge_t h;
  h.fd = memfd_create("huge", 0);
  if (h.fd < 0 || ftruncate(h.fd, HUGE_CHUNK))
    die("memfd");
  h.w = (uint8_t *)mmap(0, HUGE_CHUNK, PROT_READ | PROT_WRITE, MAP_SHARED,
                        h.fd, 0);
  if (h.w == (uint8_t *)MAP_FAILED)
    die("mmap");
  rnd_fill(h.w, HUGE_CHUNK);
  return h;
}

static __attribute__((unused)) uint8_t *huge_map(const huge_t *h,
                                                 size_t need) {
  need = (need + HUGE_CHUNK - 1) / HUGE_CHUNK * HUGE_CHUNK;
  uint8_t *m = (uint8_t *)mmap(0, need, PROT_NONE,
                               MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1,
                               0);
  if (m == (uint8_t *)MAP_FAILED)
    return 0;
  for (size_t i = 0; i < need; i += HUGE_CHUNK)
    if (mmap(m + i, HUGE_CHUNK, PROT_READ, MAP_SHARED | MAP_FIXED, h->fd, 0) ==
        MAP_FAILED)
      die("mmap fixed");
  return m;
}

static __attribute__((unused)) void huge_unmap(uint8_t *m, size_t need) {
  munmap(m, (need + HUGE_CHUNK - 1) / HUGE_CHUNK * HUGE_CHUNK);
}
