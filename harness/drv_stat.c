/* Statistical monitors of the executions of the hash functions:
 *   sac      every bit of the data and of the seeds is flipped (and other
 *            small changes are made) in many random inputs; the frequency of
 *            the changes is counted for each bit of the result
 *   touch    single changes in long, structured and special inputs; the
 *            distance of every pair of results is examined
 *   collide  families of distinct keys; equal results, and equal halves of
 *            results, are counted
 * usage: drv_stat PHASE TARGETS AMOUNT SHARD SHARDS */
#include "common.h"
#include <math.h>

static int T[G_MAX], NT;
static unsigned shard, shards;
static bool mine(uint64_t k) { return k % shards == shard; }

typedef struct {
  uint64_t v[2];
} res;
static uint64_t n_hash;
static unsigned cut; /* streams are fed in pieces when nonzero */
static bool wide(int id) { return id == G_2_128 || id == G_2S_128; }
static bool stream(int id) { return id == G_2S_64 || id == G_2S_128; }

static inline res H(int id, const uint8_t *p, size_t len, uint64_t s,
                    uint64_t s2) {
  res r = {{0, 0}};
  n_hash++;
  if (stream(id) && cut) {
    static _Alignas(64) uint8_t ctx[512];
    g_init(ctx, s, s2);
    uint32_t x = (uint32_t)rnd();
    size_t k = 0;
    while (k < len) {
      size_t n = x & 1 ? (x >> 1) % 9 : (x >> 1) % (len - k + 1);
      x = x * 1664525u + 1013904223u, x ^= x >> 16;
      n = n > len - k ? len - k : n ? n : 1;
      g_update(ctx, p + k, n);
      k += n;
    }
    r.v[0] = g_final(ctx, wide(id) ? &r.v[1] : NULL);
  } else
    r.v[0] = g_call(id, p, len, s, s2, wide(id) ? &r.v[1] : NULL);
  return r;
}

/* ---- changes. A change turns an input into a different one. */
enum {
  C_BIT, C_SEED, C_SEED2, C_APPEND, C_CUT, C_PREPEND, C_ROT, C_SWAP8, C_SWAP32,
  C_ADD8, C_TWO, C_KINDS, C_RELATED = C_KINDS
};
static const char *const cname[C_KINDS + 1] = {
    "data bit", "seed bit", "second seed bit", "append zeros", "cut the end",
    "prepend zeros", "rotate by a byte", "swap words", "swap blocks",
    "increment a word", "two bits", "related words"};
typedef struct {
  uint8_t *p;
  size_t len;
  uint64_t s, s2;
} inp;
static uint64_t rd8(const uint8_t *p) {
  uint64_t v;
  memcpy(&v, p, 8);
  return v;
}
/* in place; false: not applicable or there is no difference.
 * The buffer has room for 64 bytes more. */
static bool change(inp *i, int kind, uint64_t arg) {
  switch (kind) {
  case C_BIT:
    if (arg >= i->len * 8)
      return false;
    i->p[arg >> 3] ^= (uint8_t)(1u << (arg & 7));
    return true;
  case C_SEED:
    i->s ^= 1ull << (arg & 63);
    return true;
  case C_SEED2:
    i->s2 ^= 1ull << (arg & 63);
    return true;
  case C_APPEND:
    memset(i->p + i->len, 0, arg);
    i->len += arg;
    return arg != 0;
  case C_CUT:
    if (arg > i->len || !arg)
      return false;
    i->len -= arg;
    return true;
  case C_PREPEND:
    memmove(i->p + arg, i->p, i->len);
    memset(i->p, 0, arg);
    i->len += arg;
    return arg != 0;
  case C_ROT: {
    if (i->len < 2)
      return false;
    uint8_t c = i->p[0], same = 1;
    for (size_t k = 1; k < i->len; k++)
      same &= i->p[k] == c;
    memmove(i->p, i->p + 1, i->len - 1);
    i->p[i->len - 1] = c;
    return !same;
  }
  case C_SWAP8:
  case C_SWAP32: {
    size_t n = kind == C_SWAP8 ? 8 : 32;
    if (i->len < 2 * n)
      return false;
    size_t k = arg % (i->len - 2 * n + 1);
    if (arg & 1)
      k -= k % n;
    uint8_t t[32];
    if (!memcmp(i->p + k, i->p + k + n, n))
      return false;
    memcpy(t, i->p + k, n);
    memcpy(i->p + k, i->p + k + n, n);
    memcpy(i->p + k + n, t, n);
    return true;
  }
  case C_ADD8: {
    if (i->len < 8)
      return false;
    size_t k = (arg % (i->len / 8)) * 8;
    uint64_t v = rd8(i->p + k) + 1;
    memcpy(i->p + k, &v, 8);
    return true;
  }
  case C_TWO: {
    if (!i->len)
      return false;
    uint64_t a = arg % (i->len * 8), b = (arg >> 32) % (i->len * 8);
    if (a == b)
      return false;
    i->p[a >> 3] ^= (uint8_t)(1u << (a & 7));
    i->p[b >> 3] ^= (uint8_t)(1u << (b & 7));
    return true;
  }
  }
  return false;
}

/* two words, `dist` apart, changed in a related way */
typedef struct {
  size_t at;
  unsigned w, dist, rot, how;
  uint64_t delta;
} rel;
static bool relate(inp *i, const rel *r) {
  size_t a = r->at, b = a + (size_t)r->w * r->dist;
  if (b + r->w > i->len)
    return false;
  uint64_t x = 0, y = 0, d = r->delta, e;
  memcpy(&x, i->p + a, r->w), memcpy(&y, i->p + b, r->w);
  unsigned bits = 8 * r->w, s = r->rot % bits;
  if (bits == 32)
    d = (uint32_t)d;
  if (!d)
    return false;
  e = s ? d << s | d >> (bits - s) : d;
  switch (r->how) {
  case 0:
    x ^= d, y ^= e;
    break;
  case 1:
    x += d, y -= e;
    break;
  default:
    x ^= d, y += e;
  }
  memcpy(i->p + a, &x, r->w), memcpy(i->p + b, &y, r->w);
  return true;
}

/* frequencies of the changes of the 128 result bits: vertical counters */
typedef struct {
  uint64_t pl[16][2]; /* bit planes */
  uint32_t n;
  uint64_t total;
  uint32_t c[128];
} freq;
static void fflushp(freq *f) {
  for (unsigned h = 0; h < 2; h++)
    for (unsigned b = 0; b < 16; b++) {
      uint64_t x = f->pl[b][h];
      while (x) {
        unsigned k = (unsigned)__builtin_ctzll(x);
        f->c[64 * h + k] += 1u << b;
        x &= x - 1;
      }
      f->pl[b][h] = 0;
    }
  f->n = 0;
}
static inline void freq_add(freq *f, uint64_t a, uint64_t b) {
  uint64_t c = a;
  for (unsigned k = 0; c; k++) {
    uint64_t t = f->pl[k][0];
    f->pl[k][0] = t ^ c;
    c &= t;
  }
  c = b;
  for (unsigned k = 0; c; k++) {
    uint64_t t = f->pl[k][1];
    f->pl[k][1] = t ^ c;
    c &= t;
  }
  f->total++;
  if (++f->n == 65535)
    fflushp(f);
}

static unsigned min_dist = 64, max_dist;
static uint64_t pairs, cells;
static double worst_cell, worst_mean;

/* t1ha1 maps a word of zeros to 0 and a word of ones to ~0 whatever the
 * position: is this the only difference of the two inputs? */
static bool zero_ones(int id, const inp *a, const inp *b) {
  if (g_targets[id].alg != M_1_LE && g_targets[id].alg != M_1_BE)
    return false;
  if (!b || a->len != b->len || a->s != b->s)
    return false;
  for (size_t k = 0; k < a->len; k += 8) {
    uint64_t x = 0, y = 0;
    size_t n = a->len - k < 8 ? a->len - k : 8;
    memcpy(&x, a->p + k, n), memcpy(&y, b->p + k, n);
    if (x != y && ((x + 1) > 1 || (y + 1) > 1))
      return false;
  }
  return true;
}
static uint64_t zero_ones_seen, zero_state_seen;
static bool zero_ones_said, zero_state_said;
/* The seeds (0, 0) and their like (x = rot(y, 23), y = rot(x, 19)) make both
 * c and d of the initial state of a stream ~0; then some sparse changes of the
 * words 2 and 3 of a block cancel. Is this the only difference? */
static bool zero_seeds(uint64_t x, uint64_t y) {
  return (y >> 23 | y << 41) == x && (x >> 19 | x << 45) == y;
}
static bool zero_state(int id, const inp *a, const inp *b) {
  if (!stream(id) || !b || a->len != b->len || a->s != b->s || a->s2 != b->s2 ||
      !zero_seeds(a->s, a->s2))
    return false;
  for (size_t k = 0; k < a->len; k++)
    if (a->p[k] != b->p[k] && k % 32 < 16)
      return false;
  return true;
}

static void describe(int id, const inp *x, int kind, uint64_t arg,
                     const char *what) {
  char key[96];
  snprintf(key, sizeof(key), "%s:%s", g_targets[id].name, what);
  fail(key, "change: %s %" PRIu64 "; len=%zu seed=%#" PRIx64 ",%#" PRIx64
       " cut=%u data=%s", cname[kind], arg, x->len, x->s, x->s2, cut,
       hexs(x->p, x->len > 100 ? 100 : x->len));
}

/* the distance of one pair: fewer than 5 of 64 coins, or more than 59, come
 * once in 1.3e13 pairs; 4 once in 2e14 */
static unsigned dmin = 5;
static void pair(int id, const inp *x, const inp *y, int kind, uint64_t arg,
                 res a, res b) {
  pairs++;
  for (int h = 0; h <= wide(id); h++) {
    unsigned d = (unsigned)__builtin_popcountll(a.v[h] ^ b.v[h]);
    if (d < min_dist)
      min_dist = d;
    if (d > max_dist)
      max_dist = d;
    if (d < dmin && zero_ones(id, x, y)) {
      zero_ones_seen++;
      if (!zero_ones_said)
        zero_ones_said = true,
        describe(id, x, kind, arg, "zero-ones-words");
    } else if (d < dmin && zero_state(id, x, y)) {
      zero_state_seen++;
      if (!zero_state_said)
        zero_state_said = true,
        describe(id, x, kind, arg, "zero-state");
    } else if (d < dmin || d > 64 - dmin)
      describe(id, x, kind, arg,
               d == 0 ? "no-influence" : d < dmin ? "few-bits" : "many-bits");
  }
}

/* a frequency off one half by more than K sigma plus a tolerated bias */
static void judge(int id, freq *f, const char *what, size_t len, uint64_t arg,
                  double k, double bias) {
  fflushp(f);
  if (f->total < 200)
    return;
  double n = (double)f->total, lim = k * 0.5 / sqrt(n) + bias;
  for (unsigned b = 0; b < (wide(id) ? 128u : 64u); b++) {
    double d = fabs(f->c[b] / n - 0.5);
    cells++;
    if (d / lim > worst_cell)
      worst_cell = d / lim;
    if (d > lim) {
      char key[96];
      snprintf(key, sizeof(key), "%s:avalanche", g_targets[id].name);
      fail(key, "%s %" PRIu64 " len=%zu: bit %u of the result changed in "
           "%.2f%% of %.0f cases (allowed 50 +- %.2f%%)", what, arg, len, b,
           100.0 * f->c[b] / n, n, 100 * lim);
      if (enough())
        return;
    }
  }
}

/* the share of all the changed bits, in each half of the result */
static void judge_mean(int id, freq *f, const char *what, size_t len,
                       uint64_t arg, double bias) {
  fflushp(f);
  if (f->total < 100)
    return;
  for (int h = 0; h <= wide(id); h++) {
    uint64_t s = 0;
    for (unsigned b = 0; b < 64; b++)
      s += f->c[64 * h + b];
    double n = (double)f->total * 64, d = fabs(s / n - 0.5),
           lim = bias + 9 * 0.5 / sqrt(n);
    if (d > worst_mean)
      worst_mean = d;
    if (d > lim) {
      char key[96];
      snprintf(key, sizeof(key), "%s:mean", g_targets[id].name);
      fail(key, "%s %" PRIu64 " len=%zu: %.2f%% of the bits of half %d "
           "changed in %u cases", what, arg, len, 100 * s / n, h,
           (unsigned)f->total);
    }
  }
}
/* t1ha1 is documented (README, t1ha.h) to fail the strict avalanche criterion
 * in some cases: these are the seed and the length */
static bool strict_cells(int id, int kind) {
  bool t1 = g_targets[id].alg == M_1_LE || g_targets[id].alg == M_1_BE;
  return !t1 || kind == C_BIT || kind >= C_ROT;
}

static uint8_t *BUF, *BUF2;

static void ph_sac(unsigned amount) {
  static const unsigned more[] = {97, 100, 120, 127, 128, 129, 144, 160, 161,
                                  191, 200, 255, 256, 257};
  static freq total[C_KINDS], F;
  unsigned nl = 80 + sizeof(more) / sizeof(*more);
  for (int t = 0; t < NT && !enough(); t++) {
    int id = T[t];
    memset(total, 0, sizeof(total));
    for (unsigned li = 0; li < nl && !enough(); li++) {
      if (!mine(li))
        continue;
      unsigned len = li < 80 ? li : more[li - 80];
      for (int kind = 0; kind < C_KINDS && !enough(); kind++) {
        if (kind == C_SEED2 && !stream(id))
          continue;
        unsigned args = kind == C_BIT ? len * 8
                        : kind == C_SEED || kind == C_SEED2 ? 64
                        : kind == C_APPEND || kind == C_PREPEND ? 9
                        : kind == C_CUT ? 9
                        : 1;
        unsigned step = len > 80 ? 5 : 1;
        for (unsigned a = kind == C_BIT ? rndn(step) : 0; a < args; a += kind == C_BIT ? step : 1) {
          memset(&F, 0, sizeof(F));
          unsigned n = amount;
          if (kind > C_SEED2 && args == 1)
            n *= 4;
          unsigned off = (unsigned)rndn(16);
          for (unsigned k = 0; k < n; k++) {
            uint64_t arg = kind >= C_APPEND && kind <= C_PREPEND ? a + 1
                           : args == 1 ? rnd() : a;
            inp x = {BUF + off, len, rnd(), rnd()};
            rnd_fill(x.p, len);
            res r1 = H(id, x.p, len, x.s, x.s2);
            inp y = x;
            y.p = BUF2 + off;
            memcpy(y.p, x.p, len);
            if (!change(&y, kind, arg))
              continue;
            res r2 = H(id, y.p, y.len, y.s, y.s2);
            pair(id, &x, &y, kind, arg, r1, r2);
            freq_add(&F, r1.v[0] ^ r2.v[0], r1.v[1] ^ r2.v[1]);
          }
          fflushp(&F);
          for (unsigned b = 0; b < 128; b++)
            total[kind].c[b] += F.c[b];
          total[kind].total += F.total;
          judge_mean(id, &F, cname[kind], len, a, 0.06);
          if (strict_cells(id, kind))
            judge(id, &F, cname[kind], len, a, 9, 0.0);
        }
      }
    }
    for (int kind = 0; kind < C_KINDS; kind++) {
      if (strict_cells(id, kind))
        judge(id, &total[kind], cname[kind], 0, 0, 9, 0.0);
      judge_mean(id, &total[kind], cname[kind], 0, 0, 0.005);
    }
  }
}

/* ---- single changes in special inputs */
static void ph_touch(unsigned amount) {
  /* the recorded finding, always */
  for (int t = 0; t < NT; t++) {
    uint8_t d[16] = {255, 255, 255, 255, 255, 255, 255, 255},
            q[16] = {0, 0, 0, 0, 0, 0, 0, 0, 255, 255, 255, 255, 255, 255,
                     255, 255};
    inp x = {d, 16, 16, 0}, y = {q, 16, 16, 0};
    for (x.s = y.s = 15; x.s < 20; x.s++, y.s++)
      pair(T[t], &x, &y, C_SWAP8, 0, H(T[t], d, 16, x.s, 0),
           H(T[t], q, 16, x.s, 0));
    uint8_t e[64] = {0}, f[64] = {0};
    e[16] = f[24] = 1;
    inp z = {e, 64, 0, 0}, w = {f, 64, 0, 0};
    if (stream(T[t]))
      pair(T[t], &z, &w, C_SWAP8, 16, H(T[t], e, 64, 0, 0),
           H(T[t], f, 64, 0, 0));
  }
  size_t first = NVALS;
  vals_load(getenv("VERIF_DICT"));
  size_t nd = NVALS - first;
  size_t max = (size_t)4 << 20;
  uint8_t *a = malloc(max + 256), *b = malloc(max + 256);
  rnd_fill(a, max + 256);
  memcpy(b, a, max + 256);
  for (unsigned k = 0; k < amount && !enough(); k++) {
    int id = T[rndn(NT)];
    unsigned sel = (unsigned)rndn(100);
    size_t len = sel < 60 ? rndn(200) : sel < 90 ? rndn(3000)
                 : sel < 98 ? rndn(70000) : 0;
    if (sel >= 98)
      len = ((size_t)1 << (12 + rndn(11))) + rndn(129) - 64;
    if (len > max)
      len = max;
    uint64_t dv = nd && rndn(2) ? VALS[first + rndn(nd)] : val();
    if (rndn(12) == 0 && dv < max / 4) {
      unsigned sh = (unsigned)rndn(8);
      len = (size_t)dv;
      while (sh-- && len < 40000)
        len <<= 1;
    }
    unsigned off = (unsigned)rndn(64);
    inp x = {a + off, len, any_seed(), any_seed()};
    /* structured data with an undistinguished seed, and the reverse */
    if (len < 5000 && rndn(4)) {
      pattern(x.p, len, (unsigned)rndn(14));
      if (rndn(2))
        x.s = rnd(), x.s2 = rnd();
    }
    size_t spot = 0;
    bool has_spot = false;
    if (rndn(3) == 0) { /* a special value in the data or as the seed */
      unsigned w = 1u << rndn(4);
      uint64_t v = rndn(2) ? dv : __builtin_bswap64(dv) >> (64 - 8 * w);
      if (w <= len) {
        spot = rndn(len - w + 1);
        if (rndn(2))
          spot &= ~(size_t)7;
        if (spot + w <= len)
          memcpy(x.p + spot, &v, w), has_spot = true;
      }
    } else if (rndn(3) == 0)
      x.s = rndn(2) ? dv : ((dv & 0xffff) | rnd() << 16);
    res r1 = H(id, x.p, len, x.s, x.s2);
    for (unsigned j = 0; j < (len > 70000 ? 12u : 6u); j++) {
      int kind = rndn(3) ? C_BIT : (int)rndn(C_KINDS);
      if (kind == C_SEED2 && !stream(id))
        continue;
      uint64_t arg = kind == C_BIT ? (rndn(4) ? rndn(len * 8)
                                      : rndn(2) ? rndn(len * 8 < 512 ? len * 8 : 512)
                                                : len * 8 - 1 - rndn(len * 8 < 512 ? len * 8 : 512))
                     : kind == C_APPEND || kind == C_PREPEND ? 1 + rndn(rndn(2) ? 8 : 64)
                     : kind == C_CUT ? 1 + rndn(rndn(2) ? 8 : 64)
                     : rnd();
      if (kind == C_BIT && has_spot && rndn(3) == 0)
        arg = spot * 8 + rndn(64);
      inp y = x;
      y.p = b + off;
      memcpy(y.p, x.p, len);
      rec_case(g_targets[id].name, x.p, len, x.s, x.s2);
      if (!change(&y, kind, arg))
        continue;
      res r2 = H(id, y.p, y.len, y.s, y.s2);
      pair(id, &x, &y, kind, arg, r1, r2);
    }
  }
}

/* ---- inputs of every order of magnitude: all bits of the seeds, zeros
 * appended, bits of the data */
static uint64_t n_long;
static void ph_long(unsigned amount) {
  size_t max = (size_t)1 << 25;
  uint8_t *a = malloc(max + 1024);
  rnd_fill(a, max + 1024);
  for (unsigned b = 8; b <= amount && b < 25; b++)
    for (int t = 0; t < NT; t++)
      for (unsigned form = 0; form < 2 && !enough(); form++) {
        int id = T[t];
        if (!mine(b + t + (form ? 3 : 0)))
          continue;
        /* fewer pairs of the longest */
        unsigned n = b < 16 ? 500 : b < 20 ? 100 : 50;
        size_t len = ((size_t)1 << b) + rndn((uint64_t)1 << b);
        if (form)
          len &= ~(size_t)31;
        size_t off = rndn(32);
        inp x = {a + off, len, rnd(), rnd()};
        uint8_t save[128];
        n_long++;
        res r1 = H(id, x.p, len, x.s, x.s2);
        unsigned one = rndn(64);
        for (unsigned j = 0; j < (stream(id) ? 128u : 64u); j++) {
          if (b > 18 && (j & 63) != one && j % 7 != b % 7)
            continue; /* a sample, with all the bits in turn */
          inp y = x;
          rec_case(g_targets[id].name, x.p, len, x.s, x.s2);
          if (!change(&y, j < 64 ? C_SEED : C_SEED2, j & 63))
            continue;
          res r2 = H(id, y.p, y.len, y.s, y.s2);
          pair(id, &x, &y, j < 64 ? C_SEED : C_SEED2, j & 63, r1, r2);
        }
        for (unsigned j = 0; j < n; j++) {
          uint64_t w = rndn(4), arg = w == 0   ? rndn(len * 8)
                                      : w == 1 ? rndn(512)
                                               : len * 8 - 1 - rndn(w * 256);
          inp y = x;
          rec_case(g_targets[id].name, x.p, len, x.s, x.s2);
          change(&y, C_BIT, arg);
          res r2 = H(id, y.p, y.len, y.s, y.s2);
          pair(id, &x, 0, C_BIT, arg, r1, r2);
          change(&y, C_BIT, arg);
        }
        memcpy(save, x.p + len, 64);
        for (unsigned j = 1; j <= 64; j++) {
          if (b > 18 && j > 8 && j != 32)
            continue;
          inp y = x;
          change(&y, C_APPEND, j);
          res r2 = H(id, y.p, y.len, y.s, y.s2);
          memcpy(x.p + len, save, 64);
          pair(id, &x, &y, C_APPEND, j, r1, r2);
        }
      }
  free(a);
}

/* ---- related changes of two words. Such a pair may collapse by chance, with
 * a small probability, in a sound function too: a case is reported if it does
 * so again with other data. */
static uint64_t n_related, n_related_again;
static void ph_relate(unsigned amount) {
  enum { MAX = 140000 };
  static const size_t lens[] = {24, 40, 64, 72, 100, 136, 200, 264, 520, 1030, 2100,
                                4200, 9000, 20000, 70000, 135000};
  uint8_t *a = malloc(MAX + 256), *b = malloc(MAX + 256);
  for (unsigned rep = 0; rep < amount; rep++)
    for (unsigned li = 0; li < sizeof(lens) / sizeof(*lens); li++)
      for (int t = 0; t < NT && !enough(); t++) {
        int id = T[t];
        if (!mine(rep + li * 3 + t))
          continue;
        size_t len = lens[li] + rndn(lens[li] / 32 + 8);
        inp x = {a + rndn(16), len, rnd(), rnd()};
        rnd_fill(a, len + 16);
        memcpy(b, a, len + 16);
        res r1 = H(id, x.p, len, x.s, x.s2);
        inp y = x;
        y.p = b + (x.p - a);
        bool all_rot = len < 9000;
        for (unsigned w = 4; w <= 8; w += 4)
          for (unsigned dist = 1; dist <= 32 && !enough(); dist += dist < 17 ? 1 : 5)
            for (unsigned rot = 0; rot < 8 * w; rot++) {
              if (!all_rot && rndn(len / 4000) != 0)
                continue;
              rel r = {0, w, dist, rot, (unsigned)rndn(3), rnd()};
              if (rndn(2))
                r.delta = rndn(2) ? 1ull << rndn(64) : val();
              unsigned where = (unsigned)rndn(4);
              size_t span = (size_t)w * (dist + 1), room = len > span ? len - span : 0;
              r.at = rndn(room + 1);
              if (where == 0 && room > 256)
                r.at = rndn(256);
              else if (where == 1 && room > 256)
                r.at = room - rndn(256);
              if (where != 3)
                r.at -= r.at % 8;
              if (!relate(&y, &r))
                continue;
              rec_case(g_targets[id].name, y.p, len, x.s, x.s2);
              res r2 = H(id, y.p, len, x.s, x.s2);
              n_related++;
              bool bad = false;
              for (int h = 0; h <= wide(id); h++)
                bad |= r1.v[h] == r2.v[h];
              if (bad) {
                unsigned again = 0;
                n_related_again++;
                for (unsigned k = 0; k < 64; k++) {
                  inp u = x, v;
                  u.s = rnd(), u.s2 = rnd();
                  rnd_fill(a, len + 16);
                  memcpy(b, a, len + 16);
                  v = u, v.p = y.p;
                  if (!relate(&v, &r))
                    break;
                  res q1 = H(id, u.p, len, u.s, u.s2),
                      q2 = H(id, v.p, len, v.s, v.s2);
                  for (int h = 0; h <= wide(id); h++)
                    again += q1.v[h] == q2.v[h];
                }
                if (again > 4) {
                  char key[96];
                  snprintf(key, sizeof(key), "%s:related-words", g_targets[id].name);
                  fail(key, "len=%zu: words of %u bytes at %zu and %zu, changed "
                       "by %#" PRIx64 " and the same rotated by %u (way %u): "
                       "the same result %u times of 64", len, w, r.at,
                       r.at + w * dist, r.delta, rot, r.how, again);
                }
                rnd_fill(a, len + 16);
                x.s = y.s = rnd(), x.s2 = y.s2 = rnd();
                r1 = H(id, x.p, len, x.s, x.s2);
                memcpy(b, a, len + 16);
                continue;
              }
              memcpy(y.p + r.at, x.p + r.at, w);
              memcpy(y.p + r.at + w * dist, x.p + r.at + w * dist, w);
            }
      }
  stat_out("pairs_related", n_related);
  stat_out("pairs_related_equal_once", n_related_again);
}

/* ---- families of keys */
typedef struct {
  uint8_t k[1 << 17];
  size_t len;
  uint64_t s, s2;
} key_t1;
static key_t1 K;
static uint8_t base[1 << 17];
static uint64_t *LO, *HI, *TMP;

static void radix(uint64_t *v, uint64_t *t, size_t n) {
  for (unsigned sh = 0; sh < 64; sh += 8) {
    size_t c[257] = {0};
    for (size_t i = 0; i < n; i++)
      c[(v[i] >> sh & 255) + 1]++;
    for (unsigned i = 0; i < 256; i++)
      c[i + 1] += c[i];
    for (size_t i = 0; i < n; i++)
      t[c[v[i] >> sh & 255]++] = v[i];
    uint64_t *x = v;
    v = t, t = x;
  }
}
static size_t nk, nk_max;
static int cur;
static bool zero_ones_family, weak_seed_family;
static size_t worst_eq[2];
static double worst_ratio;
static uint64_t keys, families;
static void count(int id, const char *fam, unsigned par, uint64_t *v, size_t n,
                  const char *half) {
  char key[96];
  double ex = (double)n * (double)n / 8589934592.0;
  if (zero_ones_family && (g_targets[id].alg == M_1_LE ||
                           g_targets[id].alg == M_1_BE)) {
    zero_ones_seen++;
    return;
  }
  for (unsigned part = 0; part < 3; part++) {
    /* 0: all the 64 bits, 1: the low 32, 2: the high 32 */
    size_t eq = 0;
    if (part == 1)
      for (size_t i = 0; i < n; i++)
        v[i] = v[i] << 32 | v[i] >> 32;
    radix(v, TMP, n);
    if (part == 0) {
      for (size_t i = 1; i < n; i++)
        eq += v[i] == v[i - 1];
      /* the portable t1ha0 is documented to trade quality for speed; and
       * nothing is promised for related seeds */
      bool t0 = id == G_0_32LE || id == G_0_32BE || weak_seed_family;
      if (eq > worst_eq[t0])
        worst_eq[t0] = eq;
      if (eq > (t0 ? 2 + n / 1000 : 0)) {
        snprintf(key, sizeof(key), "%s:collision", g_targets[id].name);
        fail(key, "family %s/%u, %s: %zu collisions of 64 bits among %zu "
             "distinct keys, seed=%#" PRIx64, fam, par, half, eq, n, K.s);
      }
      /* sorted by the high half */
      for (size_t i = 1, e = 0; i <= n; i++) {
        if (i < n)
          e += v[i] >> 32 == v[i - 1] >> 32;
        if (i == n)
          eq = e;
      }
    } else if (part == 1) {
      eq = 0;
      for (size_t i = 1; i < n; i++)
        eq += v[i] >> 32 == v[i - 1] >> 32;
    } else
      break;
    if (weak_seed_family && (g_targets[id].alg == M_1_LE ||
                             g_targets[id].alg == M_1_BE))
      continue;
    double lim = 1.5 * ex + 10 * sqrt(ex) + 12;
    if ((double)eq / lim > worst_ratio)
      worst_ratio = (double)eq / lim;
    if ((double)eq > lim) {
      snprintf(key, sizeof(key), "%s:collision32", g_targets[id].name);
      fail(key, "family %s/%u, %s: %zu pairs with equal %s 32 bits among %zu "
           "keys, expected %.1f, allowed %.1f; seed=%#" PRIx64, fam, par, half, eq,
           part ? "low" : "high", n, ex, lim, K.s);
    }
  }
}

static void emit(void) {
  if (nk < nk_max) {
    res r = H(cur, K.k, K.len, K.s, K.s2);
    LO[nk] = r.v[0], HI[nk] = r.v[1];
    nk++;
  }
}
static void sparse(size_t len, unsigned bits, unsigned from) {
  emit();
  if (!bits)
    return;
  for (unsigned i = from; i < len * 8 && nk < nk_max; i++) {
    K.k[i >> 3] ^= (uint8_t)(1u << (i & 7));
    sparse(len, bits - 1, i + 1);
    K.k[i >> 3] ^= (uint8_t)(1u << (i & 7));
  }
}
static const unsigned LENS[] = {1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 20, 24, 25,
                                31, 32, 33, 40, 48, 56, 63, 64, 65, 72, 96, 100, 127,
                                128, 129, 160, 192, 256};
enum { NLENS = sizeof(LENS) / sizeof(*LENS) };
static const char *const FAMS[] = {
    "counter", "counter-high", "sparse-zero", "sparse-ones", "zeros", "ones", "seed-counter",
    "seed-sparse", "blocks4", "blocks8", "periodic", "text", "one-byte",
    "append-zeros", "seed2-counter", "blocks32", "decimal", "rotations", "two-words", "sparse-random"};
enum { NFAM = sizeof(FAMS) / sizeof(*FAMS) };

static unsigned family(unsigned f) {
  unsigned L = LENS[rndn(NLENS)];
  memset(K.k, 0, 300);
  K.s = rndn(3) ? rndn(3) ? rnd() : val() : 0;
  K.s2 = rndn(2) ? rnd() : 0;
  if (stream(cur) && zero_seeds(K.s, K.s2))
    K.s2 = 1; /* a recorded finding, see zero_state() */
  K.len = L;
  switch (f) {
  case 0:
  case 1: {
    if (L < 4)
      L = K.len = 4;
    size_t at = rndn(L - 3);
    if (rndn(2)) rnd_fill(K.k, L);
    for (uint64_t i = 0; i < nk_max; i++) {
      uint32_t v = (uint32_t)i;
      if (f)
        v = __builtin_bswap32(v);
      memcpy(K.k + at, &v, 4);
      emit();
    }
    break;
  }
  case 2:
  case 3:
  case 19: {
    if (f == 3)
      memset(K.k, 0xFF, L);
    if (f == 19)
      rnd_fill(K.k, L);
    unsigned bits = L <= 3 ? 24 : L <= 4 ? 5 : L <= 8 ? 4 : L <= 26 ? 3 : 2;
    sparse(L, bits, 0);
    break;
  }
  case 4:
  case 5: {
    memset(K.k, f == 4 ? 0 : (int)(1 + rndn(255)), sizeof(K.k));
    size_t hi = nk_max > 200000 ? 40000 : 12000;
    for (size_t i = 0; i < hi; i++) {
      K.len = i;
      emit();
    }
    memset(K.k, 0, sizeof(K.k));
    break;
  }
  case 6:
    if (rndn(2))
      K.len = 0;
    if (rndn(2))
      rnd_fill(K.k, K.len);
    L = (unsigned)rndn(43);
    for (uint64_t i = 0; i < nk_max; i++) {
      K.s = i << L;
      emit();
    }
    break;
  case 7:
    K.s = 0;
    for (unsigned a = 0; a < 64; a++)
      for (unsigned b = 0; b < a; b++)
        for (unsigned c = 0; c < b; c++) {
          K.s = 1ull << a | 1ull << b | 1ull << c;
          emit();
          K.s = ~K.s;
          emit();
        }
    break;
  case 8:
  case 9:
  case 15: {
    static const uint64_t pr[][2] = {{0, 1}, {0, 1ull << 63}, {0, ~0ull}, {1, 1ull << 32},
                                     {0x8080808080808080ull, 0}, {0x80000000, 0}, {0x0101010101010101ull, 0}};
    unsigned w = f == 8 ? 4 : f == 9 ? 8 : 32, which = (unsigned)rndn(7), nb = 10 + (unsigned)rndn(8);
    uint64_t a = pr[which][0], b = pr[which][1];
    if (w == 4 && (uint32_t)a == (uint32_t)b)
      b = 0x80000000u ^ (uint32_t)a;
    L = which;
    zero_ones_family = a + b == ~0ull && a * b == 0;
    for (unsigned m = 0; m < 1u << nb; m++) {
      memset(K.k, 0, w * nb);
      for (unsigned j = 0; j < nb; j++)
        memcpy(K.k + j * w, m >> j & 1 ? &b : &a, w == 4 ? 4 : 8);
      K.len = w * nb;
      emit();
    }
    memset(K.k, 0, w * nb);
    break;
  }
  case 10: {
    unsigned per = (unsigned[]){4, 8, 16, 32, 12, 24, 5, 3}[rndn(8)], rep = 2 + (unsigned)rndn(7);
    L = per;
    uint64_t lim = per == 3 ? 1u << 20 : nk_max;
    for (uint64_t i = 0; i < lim; i++) {
      uint8_t c[32] = {0};
      /* a bijection of the counter, so that the keys are distinct */
      uint32_t v = (uint32_t)i * 0x9E3779B1u;
      if (per == 3)
        v = (uint32_t)i;
      memcpy(c, &v, 4);
      for (unsigned j = 0; j < rep; j++)
        memcpy(K.k + j * per, c, per);
      K.len = per * rep;
      emit();
    }
    break;
  }
  case 11:
  case 16: {
    static const char al[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_";
    if (L < 8)
      L = K.len = 8;
    for (unsigned j = 0; j < L; j++)
      K.k[j] = (uint8_t)al[rndn(64)];
    size_t at = rndn(L - 7);
    for (uint64_t i = 0; i < nk_max; i++) {
      uint64_t v = i;
      for (unsigned j = 0; j < 8; j++) {
        if (f == 11)
          K.k[at + j] = (uint8_t)al[v & 63], v >>= 6;
        else
          K.k[at + 7 - j] = (uint8_t)('0' + v % 10), v /= 10;
      }
      emit();
    }
    break;
  }
  case 12: {
    L = K.len = 256 + rndn(3000);
    memset(K.k, 0, L);
    for (unsigned i = 0; i < L; i++) {
      for (unsigned v = 1; v < 256; v += L > 1000 ? 17 : 5)
        K.k[i] = (uint8_t)v, emit();
      K.k[i] = 0;
    }
    break;
  }
  case 13:
    for (unsigned b = 0; b < 200; b++) {
      unsigned n = 1 + (unsigned)rndn(60);
      rnd_fill(K.k, n + 1);
      /* distinct: the first bytes carry the number, the last is not zero */
      K.k[n] = (uint8_t)(b + 1);
      memset(K.k + n + 1, 0, 400);
      for (unsigned j = 0; j < 300; j++)
        K.len = n + 1 + j, emit();
    }
    break;
  case 14:
    if (!stream(cur))
      return 0;
    L = (unsigned)rndn(43);
    if (rndn(2))
      K.len = 0;
    for (uint64_t i = 0; i < nk_max; i++) {
      K.s2 = i << L;
      emit();
    }
    break;
  case 17: {
    L = K.len = 64 + (unsigned)rndn(2000);
    rnd_fill(base, L);
    for (unsigned i = 0; i < L; i++) {
      memcpy(K.k, base + i, L - i);
      memcpy(K.k + L - i, base, i);
      emit();
    }
    break;
  }
  case 18: {
    if (L < 16)
      L = K.len = 16;
    unsigned a = (unsigned)rndn(L / 8), b;
    do
      b = (unsigned)rndn(L / 8);
    while (b == a);
    unsigned sa = (unsigned)rndn(54), sb = (unsigned)rndn(54);
    for (uint64_t i = 0; i < 1024; i++)
      for (uint64_t j = 0; j < 1024 && nk < nk_max; j++) {
        uint64_t x = i << sa, y = j << sb;
        memcpy(K.k + 8 * a, &x, 8);
        memcpy(K.k + 8 * b, &y, 8);
        emit();
      }
    break;
  }
  }
  return L;
}

static void ph_collide(unsigned amount) {
  nk_max = (size_t)1 << (amount > 3 ? 21 : 18);
  LO = malloc(nk_max * 8), HI = malloc(nk_max * 8), TMP = malloc(nk_max * 8);
  for (unsigned r = 0; r < amount; r++)
    for (int t = 0; t < NT; t++)
      for (unsigned f = 0; f < NFAM && !enough(); f++) {
        if (!mine(r + f + t))
          continue;
        nk = 0;
        zero_ones_family = false;
        weak_seed_family = f == 6 || f == 7 || f == 14;
        cur = T[t];
        rec_case(g_targets[cur].name, K.k, f, 0, 0);
        unsigned par = family(f);
        if (!nk)
          continue;
        families++;
        keys += nk;
        count(cur, FAMS[f], par, LO, nk, "first half");
        if (wide(cur))
          count(cur, FAMS[f], par, HI, nk, "second half");
      }
}

int main(int argc, char **argv) {
  if (argc != 6)
    die("usage");
  shard = (unsigned)atoi(argv[4]);
  shards = (unsigned)atoi(argv[5]);
  common_init(argc, argv, 0xC14 + shard * 7919 + argv[1][0]);
  vals_init();
  for (char *s = strtok(argv[2], ","); s; s = strtok(NULL, ",")) {
    int id = atoi(s);
    if (id < G_MAX && g_targets[id].present && cpu_can(id))
      T[NT++] = id;
  }
  unsigned am = (unsigned)atoi(argv[3]);
  BUF = malloc(4096), BUF2 = malloc(4096);
  cut = shard & 1;
  if (getenv("VERIF_DMIN"))
    dmin = (unsigned)atoi(getenv("VERIF_DMIN"));
  if (!strcmp(argv[1], "sac"))
    ph_sac(am);
  else if (!strcmp(argv[1], "touch"))
    ph_touch(am);
  else if (!strcmp(argv[1], "long"))
    ph_long(am);
  else if (!strcmp(argv[1], "relate"))
    ph_relate(am);
  else if (!strcmp(argv[1], "collide"))
    ph_collide(am);
  else
    die("phase");
  stat_out("hashes", n_hash);
  stat_out("long_inputs", n_long);
  stat_out("pairs_compared", pairs);
  stat_out("avalanche_cells_judged", cells);
  stat_out("keys_in_families", keys);
  stat_out("families", families);
  stat_out("max_collisions_portable_t1ha0", worst_eq[1]);
  stat_out("recorded_zero_ones_cases", zero_ones_seen);
  stat_out("recorded_zero_state_cases", zero_state_seen);
  if (pairs) {
    stat_out("max_distance", max_dist);
    stat_out("max_64_minus_min_distance", 64 - min_dist);
  }
  stat_out("max_avalanche_deviation_permille_of_limit", (uint64_t)(1000 * worst_cell));
  stat_out("max_mean_deviation_ppm", (uint64_t)(1e6 * worst_mean));
  stat_out("max_collision_permille_of_limit", (uint64_t)(1000 * worst_ratio));
  return 0;
}
