/* Differential monitor of the plain hash functions against the model.
 *   drv_value <phase> <targets: comma separated ids> <amount> <shard> <shards>
 */
#include "common.h"
#include "steer.h"

static int T[G_MAX], NT;
static uint64_t n_cmp, n_len_big;
static uint8_t seen_len[1 << 16], seen_pos[4096];
static uint64_t distinct_lens, distinct_pos;

static void mismatch(int id, const void *p, size_t len, uint64_t seed,
                     uint64_t lo, uint64_t hi, m_res m, const char *phase) {
  char key[120];
  snprintf(key, sizeof(key), "value:%s", g_targets[id].name);
  fail(key,
       "%s: len=%zu seed=%#" PRIx64 " ptr%%4096=%u: got %016" PRIx64
       ":%016" PRIx64 ", reference %016" PRIx64 ":%016" PRIx64 " data=%s",
       phase, len, seed, (unsigned)((uintptr_t)p % 4096), hi, lo, m.hi, m.lo,
       hexs(p, len));
}

static void cover(const void *p, size_t len) {
  n_cmp++;
  if (len < sizeof(seen_len)) {
    if (!seen_len[len])
      seen_len[len] = 1, distinct_lens++;
  } else
    n_len_big++;
  unsigned pos = (unsigned)((uintptr_t)p & 4095);
  if (!seen_pos[pos])
    seen_pos[pos] = 1, distinct_pos++;
}

static bool one(int id, const void *p, size_t len, uint64_t seed, m_res m,
                const char *phase) {
  uint64_t hi = 0x5A5A5A5A5A5A5A5Aull;
  rec_case(g_targets[id].name, p, len, seed, 0);
  uint64_t lo = g_call(id, p, len, seed, 0, &hi);
  if (g_targets[id].alg != M_2_128)
    hi = 0;
  cover(p, len);
  if (lo == m.lo && hi == m.hi)
    return true;
  mismatch(id, p, len, seed, lo, hi, m, phase);
  return false;
}

/* one input, every target; the model runs once per algorithm */
static void all(const void *p, size_t len, uint64_t seed, const char *phase) {
  m_res m[M_ALGS];
  uint32_t have = 0;
  for (int i = 0; i < NT && !enough(); i++) {
    int alg = g_targets[T[i]].alg;
    if (!(have >> alg & 1)) {
      m[alg] = m_hash((enum m_alg)alg, p, len, seed, 0);
      have |= 1u << alg;
    }
    one(T[i], p, len, seed, m[alg], phase);
  }
}

static unsigned shard, shards;
static bool mine(uint64_t k) { return k % shards == shard; }

/* every length against every place relative to the guard pages, to the page
 * boundaries and to the alignment */
static void ph_grid(uint64_t amount) {
  enum { MAXL = 330 };
  static const size_t more[] = {383, 384, 385, 511, 512, 513, 639, 640, 641,
                                767, 1023, 1024, 1025, 2047, 2048, 2049,
                                4095, 4096, 4097, 8191, 8192, 8193};
  arena_t a = arena_new(6);
  uint8_t *tmp = malloc(1 << 16);
  for (uint64_t rep = 0; rep < amount && !enough(); rep++) {
    for (size_t li = 0; li < MAXL + sizeof(more) / sizeof(*more); li++) {
      size_t len = li < MAXL ? li : more[li - MAXL];
      if (!mine(li))
        continue;
      rnd_fill(a.base, a.size);
      pattern(tmp, len, (unsigned)rndn(14));
      uint64_t seed = any_seed();
      m_res m[M_ALGS];
      uint32_t have = 0;
      for (int i = 0; i < NT; i++) {
        int alg = g_targets[T[i]].alg;
        if (!(have >> alg & 1))
          m[alg] = m_hash((enum m_alg)alg, tmp, len, seed, 0);
        have |= 1u << alg;
      }
      unsigned step = len > 1024 ? 7 : 1;
      for (unsigned k = 0; k < 64 * 2 + 80 && !enough(); k += step) {
        uint8_t *p;
        if (k < 64)
          p = a.end - len - k;
        else if (k < 128)
          p = a.base + (k - 64);
        else { /* around the boundary of the third page */
          size_t back = (k - 128) < 40 ? (k - 128) : (len + 40 - (k - 128));
          p = a.base + 3 * PG - back;
          if (p < a.base || p + len > a.end)
            continue;
        }
        if (p < a.base)
          continue;
        memcpy(p, tmp, len);
        for (int i = 0; i < NT; i++)
          one(T[i], p, len, seed, m[g_targets[T[i]].alg], "grid");
      }
      if (li == shard + 32 && rep == 0)
        printf("SAMPLE grid len=%zu seed=%#" PRIx64 " data=%s\n", len, seed,
               hexs(tmp, len > 40 ? 40 : len));
    }
  }
}

/* special seeds by short lengths */
static void ph_seeds(uint64_t amount) {
  arena_t a = arena_new(2);
  for (uint64_t rep = 0; rep < amount; rep++)
    for (size_t s = 0; s < NVALS && !enough(); s++) {
      if (!mine(s))
        continue;
      for (size_t len = 0; len <= 160; len++) {
        uint8_t *p = rndn(2) ? a.end - len : a.base + rndn(64);
        pattern(p, len, (unsigned)rndn(14));
        all(p, len, rep ? any_seed() : VALS[s], "seeds");
      }
    }
}

/* multiplication operands steered to special values */
static void ph_steer(uint64_t amount) {
  uint8_t *raw = malloc(2048);
  for (uint64_t k = 0; k < amount && !enough(); k++) {
    int id = T[rndn(NT)];
    int alg = g_targets[id].alg;
    size_t len = rndn(k & 1 ? 64 : 300);
    uint8_t *p = raw + rndn(16);
    uint64_t seed = any_seed();
    pattern(p, len, (unsigned)rndn(14));
    unsigned density = 1 + (unsigned)rndn(4);
    m_steer((enum m_alg)alg, p, len, seed, 0, pick, &density);
    if (k < 2)
      printf("SAMPLE steer %s len=%zu seed=%#" PRIx64 " data=%s\n",
             g_targets[id].name, len, seed, hexs(p, len > 40 ? 40 : len));
    all(p, len, seed, "steer");
  }
  stat_out("carry_boundary_operands", n_carry);
}

static void ph_random(uint64_t amount) {
  uint8_t *raw = aligned_alloc(PG, 1 << 13);
  for (uint64_t k = 0; k < amount && !enough(); k++) {
    size_t len = rndn(4) ? rndn(260) : rndn(4096);
    uint8_t *p = raw + (k + shard * 512) % PG;
    pattern(p, len, (unsigned)rndn(14));
    all(p, len, any_seed(), "random");
  }
}

static void ph_long(uint64_t amount) {
  size_t max = (size_t)24 << 20;
  uint8_t *raw = mmap(0, max + 4 * PG, PROT_READ | PROT_WRITE,
                      MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (raw == MAP_FAILED)
    die("mmap");
  rnd_fill(raw, max + 4 * PG);
  /* all the powers of two and their neighbours */
  for (unsigned b = 8; b <= 24; b++)
    for (int d = -33; d <= 33; d++) {
      if (b > 20 && (d < -2 || d > 2) && d % 16)
        continue;
      uint64_t k = b * 67 + (unsigned)(d + 33);
      if (!mine(k) || enough())
        continue;
      size_t len = ((size_t)1 << b) + d;
      all(raw + rndn(64), len, any_seed(), "pow2");
    }
  for (uint64_t k = 0; k < amount && !enough(); k++) {
    unsigned b = 8 + (unsigned)rndn(13);
    size_t len = ((size_t)1 << b) + rndn((size_t)1 << b);
    if (rndn(3) == 0)
      len &= ~(size_t)127;
    else if (rndn(3) == 0)
      len &= ~(size_t)31;
    uint8_t *p = raw + rndn(4096);
    if (rndn(8) == 0)
      pattern(p, len < 65536 ? len : 65536, (unsigned)rndn(14));
    all(p, len, any_seed(), "long");
  }
  stat_out("lens_beyond_64k", n_len_big);
}

/* lengths around 2^31, 2^32 and above: one memfd mapped over and over */
static void ph_huge(uint64_t amount) {
  huge_t h = huge_new();
  static const uint64_t bases64[] = {(uint64_t)1 << 32, (uint64_t)1 << 31,
                                     ((uint64_t)1 << 32) + ((uint64_t)1 << 31),
                                     (uint64_t)1 << 33},
                        /* no object is larger than PTRDIFF_MAX */
                        bases32[] = {((uint64_t)1 << 31) - 1000, 2000000000u,
                                     (uint64_t)1 << 30};
  bool b64 = sizeof(void *) == 8;
  for (uint64_t k = 0; k < amount && !enough(); k++) {
    uint64_t base = b64 ? bases64[k % 4] : bases32[k % 3];
    int64_t d = (k / 4) % 2 ? -(int64_t)rndn(200) - 1 : (int64_t)rndn(300);
    if (rndn(4) == 0)
      d = 0;
    size_t len = (size_t)(base + d);
    size_t off = rndn(64);
    uint8_t *m = huge_map(&h, len + off);
    if (!m) {
      printf("NOTE huge: no address space for %zu\n", len);
      continue;
    }
    all(m + off, len, any_seed(), "huge");
    printf("SAMPLE huge len=%zu off=%zu\n", len, off);
    stat_out("lens_beyond_1g", 1);
    huge_unmap(m, len + off);
  }
}

/* all powers of two from 2^24 up to 2^amount, and lengths between them */
static void ph_pow(uint64_t amount) {
  huge_t h = huge_new();
  size_t max = (size_t)1 << amount;
  uint8_t *m = huge_map(&h, max + 8192);
  if (!m)
    die("no address space");
  for (unsigned b = 24; b <= amount && !enough(); b++) {
    size_t p = (size_t)1 << b;
    if (mine(2 * b))
      all(m + rndn(64), p + rndn(70) - 3, any_seed(), "pow");
    if (b < amount && mine(2 * b + 1))
      all(m + rndn(64), p + rndn(p), any_seed(), "pow");
    stat_out("lens_beyond_16m", 1);
  }
}

/* input-to-constant: every constant that the code compares with, as a
 * length, as a seed, as data words, as the operands */
static void ph_dict(uint64_t amount) {
  size_t first = NVALS;
  vals_load(getenv("VERIF_DICT"));
  size_t n = NVALS - first;
  size_t max = (size_t)4 << 20;
  uint8_t *raw = malloc(max + 64);
  rnd_fill(raw, max + 64);
  uint64_t used = 0;
  for (size_t i = 0; i < n && !enough(); i++) {
    uint64_t v = VALS[first + i];
    if (!mine(i))
      continue;
    used++;
    for (uint64_t k = 0; k < amount; k++) {
      for (unsigned sh = 0; sh < 16 && v << sh <= max && v >> 24 == 0; sh++) {
        if (sh && (v << sh) > 65536 && k)
          break;
        size_t l = (size_t)(v << sh) + (size_t)rndn((uint64_t)1 << sh);
        all(raw + rndn(64), l, any_seed(), "dict-len");
      }
      size_t len = rndn(200);
      uint8_t *p = raw + rndn(64);
      uint64_t seeds[] = {v, (uint64_t)(uint32_t)v | rnd() << 32,
                          v << 32 | (uint32_t)rnd(), ~v,
                          __builtin_bswap64(v), (v & 0xffff) | rnd() << 16,
                          (v & 0xff) | rnd() << 8, v << 48 | rnd() >> 16,
                          v << 56 | rnd() >> 8};
      pattern(p, len, (unsigned)rndn(14));
      for (unsigned s = 0; s < sizeof(seeds) / sizeof(*seeds); s++)
        all(p, len, seeds[s], "dict-seed");
      for (unsigned w = 1; w <= 8; w <<= 1) {
        if (w < 8 && v >> (8 * w) && v >> 32 != 0xffffffffu)
          continue;
        len = w + rndn(160);
        rnd_fill(p, len);
        size_t at = rndn(len - w + 1);
        if (rndn(2))
          at &= ~(size_t)7;
        uint64_t x = rndn(2) ? v : __builtin_bswap64(v) >> (64 - 8 * w);
        memcpy(p + at, &x, w);
        all(p, len, any_seed(), "dict-data");
      }
      /* as an operand */
      int alg = g_targets[T[rndn(NT)]].alg;
      len = rndn(160);
      unsigned density = 2;
      uint64_t keep = VALS[0];
      VALS[0] = v;
      size_t keepn = NVALS;
      NVALS = 1;
      m_steer((enum m_alg)alg, p, len, v, 0, pick, &density);
      NVALS = keepn;
      VALS[0] = keep;
      all(p, len, v, "dict-operand");
    }
  }
  stat_out("dict_values", used);
}

#ifdef WITH_COV
#include "cmpcov.h"
static void run_case(int id, const uint8_t *p, size_t len, uint64_t seed) {
  m_res m = m_hash((enum m_alg)g_targets[id].alg, p, len, seed, 0);
  cmp_n = 0;
  cmp_on = 1;
  one(id, p, len, seed, m, "input-to-state");
  cmp_on = 0;
}
/* run the library over ordinary inputs, keep the constants it compares with */
static void ph_harvest(uint64_t amount) {
  uint8_t *raw = aligned_alloc(PG, 1 << 17);
  for (uint64_t k = 0; k < amount; k++) {
    size_t len = k % 64 ? rndn(rndn(2) ? 48 : 400) : rndn(65536);
    uint8_t *p = raw + rndn(PG);
    pattern(p, len, (unsigned)rndn(14));
    run_case(T[k % NT], p, len, any_seed());
  }
  const char *out = getenv("VERIF_DICT_OUT");
  FILE *f = fopen(out, "w");
  if (!f)
    die("dict %s", out ? out : "?");
  for (size_t i = 0; i < cmp_nconsts; i++)
    fprintf(f, "%" PRIx64 "\n", cmp_consts[i]);
  fclose(f);
  stat_out("harvested_constants", cmp_nconsts);
  stat_out("comparison_sites", cmp_nsites);
}
typedef struct {
  int id;
  unsigned off;
  size_t len;
  uint64_t seed;
  uint8_t data[512];
} rq_case;
/* input-to-state: when an operand of an executed comparison is found in the
 * input, substitute the other operand for it */
static void ph_rq(uint64_t amount) {
  enum { CORP = 512, MAXD = 512 };
  rq_case *corpus = calloc(CORP, sizeof(rq_case));
  size_t nc = 0;
  size_t max = (size_t)1 << 20;
  uint8_t *raw = aligned_alloc(PG, max + 2 * PG);
  rnd_fill(raw, max + 2 * PG);
  cmp_ev *lg = malloc(sizeof(cmp_log));
  uint64_t subst = 0, grew = 0;
  for (uint64_t k = 0; k < amount && !enough(); k++) {
    rq_case c;
    if (nc && rndn(3) == 0)
      c = corpus[rndn(nc)];
    else {
      c.id = T[rndn(NT)];
      c.len = rndn(rndn(2) ? 70 : 400);
      c.off = (unsigned)rndn(rndn(2) ? 64 : PG);
      c.seed = any_seed();
      pattern(c.data, c.len, (unsigned)rndn(14));
    }
    uint8_t *p = raw + c.off;
    memcpy(p, c.data, c.len < MAXD ? c.len : MAXD);
    run_case(c.id, p, c.len, c.seed);
    if (cmp_take_new() && nc < CORP && c.len <= MAXD)
      corpus[nc++] = c, grew++;
    size_t n = cmp_n;
    memcpy(lg, cmp_log, n * sizeof(cmp_ev));
    unsigned tries = 0;
    for (size_t i = 0; i < n && tries < 96; i++) {
      if (lg[i].a == lg[i].b)
        continue;
      unsigned w = lg[i].width;
      uint64_t mask = w == 8 ? ~(uint64_t)0 : ((uint64_t)1 << (8 * w)) - 1;
      for (int dir = 0; dir < (lg[i].is_const ? 1 : 2); dir++) {
        uint64_t want = dir ? lg[i].b : lg[i].a, x = dir ? lg[i].a : lg[i].b;
        for (int delta = -1; delta <= 1; delta++) {
          uint64_t y = (want + delta) & mask;
          if (delta && rndn(4))
            continue;
          for (unsigned s = 0; s < 64; s += w > 1 ? 8 : 4) {
            if (((c.seed >> s) & mask) == x && (x > 255 || s == 0)) {
              uint64_t m = mask << s, ns = (c.seed & ~m) | ((y << s) & m);
              run_case(c.id, p, c.len, ns);
              tries++, subst++;
              if (cmp_take_new() && nc < CORP && c.len <= MAXD) {
                corpus[nc] = c;
                corpus[nc++].seed = ns, grew++;
              }
            }
          }
          for (unsigned s = 0; s < 12; s++)
            if (((c.len >> s) & mask) == x && x && (y << s) <= max &&
                y >> 40 == 0) {
              size_t nl = (size_t)(y << s) | (c.len & (((size_t)1 << s) - 1));
              run_case(c.id, p, nl, c.seed);
              tries++, subst++;
              if (cmp_take_new() && nc < CORP && nl <= MAXD) {
                corpus[nc] = c;
                memcpy(corpus[nc].data, p, nl);
                corpus[nc++].len = nl, grew++;
              }
            }
          if (w >= 2 || x > 31)
            for (size_t at = 0; at + w <= c.len && at + w <= MAXD; at++) {
              uint64_t le = 0, be = 0;
              for (unsigned b = 0; b < w; b++) {
                le |= (uint64_t)p[at + b] << (8 * b);
                be = be << 8 | p[at + b];
              }
              if ((le == x || be == x) && tries < 96) {
                rq_case d = c;
                for (unsigned b = 0; b < w; b++)
                  d.data[at + b] = (uint8_t)(
                      le == x ? y >> (8 * b) : y >> (8 * (w - 1 - b)));
                memcpy(p, d.data, c.len < MAXD ? c.len : MAXD);
                run_case(c.id, p, c.len, c.seed);
                memcpy(p, c.data, c.len < MAXD ? c.len : MAXD);
                tries++, subst++;
                if (cmp_take_new() && nc < CORP && c.len <= MAXD)
                  corpus[nc++] = d, grew++;
              }
            }
        }
      }
    }
  }
  stat_out("input_to_state_substitutions", subst);
  stat_out("input_to_state_new_outcomes", grew);
  size_t hit, total;
  cmp_blocks(&hit, &total);
  stat_out("max_blocks_covered", hit);
  stat_out("max_blocks", total);
  stat_out("comparison_sites", cmp_nsites);
  stat_out("comparison_sites_seen_equal", cmp_nsites_eq);
}
#endif /* WITH_COV */

int main(int argc, char **argv) {
  if (argc != 6)
    die("usage");
  shard = (unsigned)atoi(argv[4]);
  shards = (unsigned)atoi(argv[5]);
  uint64_t h = shard * 1000003u;
  for (const char *s = argv[1]; *s; s++)
    h = h * 31 + (uint8_t)*s;
  for (const char *s = argv[2]; *s; s++)
    h = h * 31 + (uint8_t)*s;
  common_init(argc, argv, h);
  vals_init();
  for (char *s = strtok(argv[2], ","); s; s = strtok(NULL, ",")) {
    int id = atoi(s);
    if (id >= 0 && id < G_MAX && g_targets[id].present && cpu_can(id))
      T[NT++] = id;
  }
  if (!NT) {
    printf("NOTE no targets here\nSTAT targets 0\n");
    return 0;
  }
  uint64_t amount = strtoull(argv[3], 0, 0);
  const char *ph = argv[1];
  rec_what("%s", ph);
  if (!strcmp(ph, "grid"))
    ph_grid(amount);
  else if (!strcmp(ph, "seeds"))
    ph_seeds(amount);
  else if (!strcmp(ph, "steer"))
    ph_steer(amount);
  else if (!strcmp(ph, "random"))
    ph_random(amount);
  else if (!strcmp(ph, "long"))
    ph_long(amount);
  else if (!strcmp(ph, "pow"))
    ph_pow(amount);
  else if (!strcmp(ph, "huge"))
    ph_huge(amount);
  else if (!strcmp(ph, "dict"))
    ph_dict(amount);
#ifdef WITH_COV
  else if (!strcmp(ph, "harvest"))
    ph_harvest(amount);
  else if (!strcmp(ph, "rq"))
    ph_rq(amount);
#endif
  else if (!strcmp(ph, "selfcheck")) {
    static const char *const sc[] = {
        "t1ha2_atonce", "t1ha2_atonce128", "t1ha2_stream", "t1ha2", "t1ha1_le",
        "t1ha1_be", "t1ha1", "t1ha0_32le", "t1ha0_32be", "t1ha0_ia32aes_noavx",
        "t1ha0_ia32aes_avx", "t1ha0_ia32aes_avx2", "t1ha0", "all_enabled"};
    for (unsigned i = 0; i < sizeof(sc) / sizeof(*sc); i++) {
      int rc = 0;
      rec_case("t1ha_selfcheck", 0, i, 0, 0);
      if (g_selfcheck(sc[i], &rc)) {
        stat_out("selfchecks_run", 1);
        if (rc)
          fail("selfcheck", "t1ha_selfcheck__%s() = %d", sc[i], rc);
      }
    }
  } else
    die("phase %s", ph);
  stat_out("comparisons", n_cmp);
  char nm[80];
  snprintf(nm, sizeof(nm), "comparisons_%s", ph);
  stat_out(nm, n_cmp);
  stat_out("max_distinct_lengths", distinct_lens);
  stat_out("max_distinct_page_offsets", distinct_pos);
  return 0;
}
