/* Histories of the streaming API with an online monitor: a model state beside
 * each context.   drv_stream <phase> <amount> <shard> <shards> */
#include "common.h"

#define NCTX 8
typedef struct {
  void *ctx;     /* address of the library's context */
  m_stream m;    /* the model of what it holds */
  uint64_t x, y; /* seeds */
  uint64_t total;
  unsigned ops;
  bool live;
  uint64_t sum; /* of the context's bytes, to notice interference */
} slot_t;
static slot_t S[NCTX];
static uint64_t n_final, n_update, n_hist, n_copy, n_bytes;
static uint8_t part_chunk[32][160]; /* partial fill x size of the next chunk */
static uint64_t n_pc;
static char hist[512];
static size_t hist_n;

static void h_add(const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  if (hist_n > sizeof(hist) - 48) {
    memmove(hist, hist + 200, hist_n - 200);
    hist_n -= 200;
  }
  hist_n += vsnprintf(hist + hist_n, 47, fmt, ap);
  va_end(ap);
}

/* contexts live at changing addresses, each followed by a guard page or by
 * other contexts */
static uint8_t *ctx_mem;
static size_t ctx_stride, ctx_slots;
static arena_t ctx_arena;
static uint8_t *ctx_free[256];
static size_t ctx_nfree;
static void ctx_setup(void) {
  ctx_stride = (g_ctx_size + g_ctx_align - 1) / g_ctx_align * g_ctx_align;
  ctx_arena = arena_new(3);
  /* the last one touches the guard page */
  ctx_slots = 3 * PG / ctx_stride;
  if (ctx_slots > 200)
    ctx_slots = 200;
  for (size_t i = 0; i < ctx_slots; i++)
    ctx_free[ctx_nfree++] =
        ctx_arena.end - (g_ctx_size + g_ctx_align - 1) / g_ctx_align *
                            g_ctx_align * (i + 1);
  rnd_fill(ctx_arena.base, ctx_arena.size);
}
static void *ctx_get(void) {
  size_t k = rndn(ctx_nfree);
  void *p = ctx_free[k];
  ctx_free[k] = ctx_free[--ctx_nfree];
  rnd_fill(p, g_ctx_size); /* garbage before t1ha2_init() */
  return p;
}
static void ctx_put(void *p) {
  memset(p, 0xA5, g_ctx_size);
  ctx_free[ctx_nfree++] = p;
}
static uint64_t sum_of(const void *p) {
  const uint8_t *b = p;
  uint64_t h = 14695981039346656037ull;
  for (size_t i = 0; i < g_ctx_size; i++)
    h = (h ^ b[i]) * 1099511628211ull;
  return h;
}

static arena_t D; /* the data of chunks */
static const uint8_t *chunk_put(const uint8_t *src, size_t n) {
  uint8_t *p;
  switch (rndn(3)) {
  case 0:
    p = D.end - n;
    break;
  case 1:
    p = D.base;
    break;
  default:
    p = D.base + rndn(D.size - n < 512 ? D.size - n + 1 : 512);
  }
  memcpy(p, src, n);
  return p;
}
static void chunk_drop(const uint8_t *p, size_t n) {
  /* the memory may be reused after an update */
  if (n < 4096)
    rnd_fill((void *)p, n);
  else
    memset((void *)p, (int)rndn(256), n);
}

static void s_init(slot_t *s, uint64_t x, uint64_t y) {
  if (!s->ctx)
    s->ctx = ctx_get();
  rec_case("t1ha2_init", s->ctx, 0, x, y);
  g_init(s->ctx, x, y);
  m_stream_init(&s->m, x, y);
  s->x = x, s->y = y, s->total = 0, s->live = true, s->ops = 0;
}
static void s_update_at(slot_t *s, const uint8_t *p, size_t n) {
  if (n < 160 && !part_chunk[s->m.fill][n])
    part_chunk[s->m.fill][n] = 1, n_pc++;
  m_stream_update(&s->m, p, n);
  rec_case("t1ha2_update", p, n, s->x, s->y);
  g_update(s->ctx, p, n);
  s->total += n;
  n_bytes += n;
  n_update++;
  s->ops++;
}
static void s_update(slot_t *s, const uint8_t *src, size_t n) {
  const uint8_t *p = chunk_put(src, n);
  s_update_at(s, p, n);
  chunk_drop(p, n);
}
/* finalize a copy, or the context itself */
static void s_check(slot_t *s, bool wide, bool copy, const char *phase) {
  m_res want = m_stream_final(&s->m, wide);
  void *c = s->ctx;
  if (copy) {
    c = ctx_get();
    memcpy(c, s->ctx, g_ctx_size);
  }
  uint64_t hi = 0x1122334455667788ull;
  rec_case(wide ? "t1ha2_final128" : "t1ha2_final64", c, s->total, s->x, s->y);
  uint64_t lo = g_final(c, wide ? &hi : NULL);
  n_final++;
  if (!wide)
    hi = 0;
  if (lo != want.lo || hi != want.hi) {
    fail(wide ? "stream:final128" : "stream:final64",
         "%s: total=%" PRIu64 " seeds=%#" PRIx64 ",%#" PRIx64
         " got %016" PRIx64 ":%016" PRIx64 " reference %016" PRIx64
         ":%016" PRIx64 " history: %s",
         phase, s->total, s->x, s->y, hi, lo, want.hi, want.lo, hist);
  }
  if (copy)
    ctx_put(c);
  else {
    ctx_put(s->ctx);
    s->ctx = NULL;
    s->live = false;
  }
}

static unsigned shard, shards;
static bool mine(uint64_t k) { return k % shards == shard; }

/* every division in two of every short length */
static void ph_split(uint64_t amount) {
  uint8_t buf[512];
  for (uint64_t rep = 0; rep < amount; rep++)
    for (size_t len = 0; len <= 200; len++) {
      if (!mine(len))
        continue;
      uint64_t x = any_seed(), y = any_seed();
      for (size_t cut = 0; cut <= len && !enough(); cut++)
        for (int wide = 0; wide < 2; wide++) {
          slot_t *s = &S[0];
          pattern(buf, len, (unsigned)rndn(14));
          hist_n = 0;
          h_add("init;%zu,%zu", cut, len - cut);
          s_init(s, x, y);
          s_update(s, buf, cut);
          s_update(s, buf + cut, len - cut);
          s_check(s, wide, false, "split");
          n_hist++;
        }
    }
}
/* pending bytes x next chunk x one more chunk */
static void ph_pxc(uint64_t amount) {
  uint8_t buf[1024];
  for (uint64_t rep = 0; rep < amount; rep++)
    for (size_t part = 0; part < 32; part++)
      for (size_t chunk = 0; chunk < 160 && !enough(); chunk++) {
        if (!mine(part * 160 + chunk))
          continue;
        slot_t *s = &S[0];
        size_t more = rndn(70), lead = rndn(3) ? 0 : 32 * rndn(5);
        rnd_fill(buf, sizeof(buf));
        hist_n = 0;
        h_add("init;%zu,%zu,%zu", lead + part, chunk, more);
        s_init(s, any_seed(), any_seed());
        if (lead + part)
          s_update(s, buf, lead + part);
        s_update(s, buf + 300, chunk);
        s_check(s, rndn(2), true, "partial x chunk");
        s_update(s, buf + 500, more);
        s_check(s, rndn(2), false, "partial x chunk, more");
        n_hist++;
      }
}

static size_t any_chunk(void) {
  switch (rndn(10)) {
  case 0:
    return 0;
  case 1:
    return 1;
  case 2:
  case 3:
    return rndn(33);
  case 4:
  case 5:
    return rndn(100);
  case 6:
    return 32 * rndn(6) + rndn(3);
  case 7: { /* constants of the code */
    uint64_t v = val();
    return v < 3000 ? (size_t)v : rndn(200);
  }
  case 8:
    return rndn(1200);
  default:
    return rndn(8) ? rndn(64) : 1 + rndn(6000);
  }
}

/* random interleaved histories over several contexts */
static void ph_hist(uint64_t amount) {
  uint8_t *buf = malloc(16384);
  uint64_t k = 0;
  for (int i = 0; i < NCTX; i++)
    s_init(&S[i], any_seed(), any_seed());
  for (int i = 0; i < NCTX; i++)
    S[i].sum = sum_of(S[i].ctx);
  while (k < amount && !enough()) {
    k++;
    int i = (int)rndn(NCTX);
    slot_t *s = &S[i];
    if (!s->live) {
      hist_n = 0;
      hist[0] = 0;
      s_init(s, any_seed(), any_seed());
      h_add("#%d init;", i);
      n_hist++;
    }
    switch (rndn(16)) {
    case 0: { /* copy over another context */
      int j = (int)rndn(NCTX);
      if (j != i) {
        slot_t *t = &S[j];
        if (!t->ctx)
          t->ctx = ctx_get();
        void *c = t->ctx;
        memcpy(c, s->ctx, g_ctx_size);
        *t = *s;
        t->ctx = c;
        t->sum = sum_of(c);
        n_copy++;
        h_add("#%d=#%d;", j, i);
      }
      break;
    }
    case 1: { /* move */
      void *c = ctx_get();
      memcpy(c, s->ctx, g_ctx_size);
      ctx_put(s->ctx);
      s->ctx = c;
      n_copy++;
      h_add("#%d moved;", i);
      break;
    }
    case 2: /* start over in the same memory, whatever it holds */
      s_init(s, any_seed(), rndn(4) ? any_seed() : s->x);
      h_add("#%d init;", i);
      n_hist++;
      break;
    case 3: /* nothing */
      h_add("#%d 0;", i);
      s_update_at(s, rndn(2) ? NULL : D.end, 0);
      break;
    case 4:
    case 5:
      s_check(s, rndn(2), true, "history, copy");
      break;
    case 6: { /* finalize, then init in the very same memory */
      if (s->ops < 3)
        break;
      bool wide = rndn(2);
      m_res want = m_stream_final(&s->m, wide);
      uint64_t hi = 1, lo;
      rec_case("t1ha2_final", s->ctx, s->total, s->x, s->y);
      lo = g_final(s->ctx, wide ? &hi : NULL);
      n_final++;
      if (lo != want.lo || (wide && hi != want.hi))
        fail(wide ? "stream:final128" : "stream:final64",
             "history: total=%" PRIu64 " got %016" PRIx64
             " reference %016" PRIx64 " history: %s",
             s->total, lo, want.lo, hist);
      s_init(s, any_seed(), any_seed());
      h_add("#%d final,init;", i);
      n_hist++;
      break;
    }
    case 7: { /* a burst of single bytes */
      size_t n = rndn(80);
      rnd_fill(buf, n);
      for (size_t j = 0; j < n; j++)
        s_update(s, buf + j, 1);
      h_add("#%d 1x%zu;", i, n);
      break;
    }
    default: {
      size_t n = any_chunk();
      pattern(buf, n, (unsigned)rndn(14));
      h_add("#%d %zu;", i, n);
      s_update(s, buf, n);
    }
    }
    if (s->live)
      s->sum = sum_of(s->ctx);
    int o = (int)rndn(NCTX);
    if (S[o].live && sum_of(S[o].ctx) != S[o].sum) {
      fail("stream:interference",
           "context #%d changed by operations on another: %s", o, hist);
      S[o].sum = sum_of(S[o].ctx);
    }
    if (k < 40 && k % 13 == 0)
      printf("SAMPLE history %s\n", hist);
  }
  for (int i = 0; i < NCTX; i++)
    if (S[i].live)
      s_check(&S[i], i & 1, false, "history, end");
}

/* long single histories: chunk sizes with a common stride, many calls */
static void ph_long(uint64_t amount) {
  size_t max = 1 << 20;
  uint8_t *buf = malloc(max + 64);
  rnd_fill(buf, max + 64);
  for (uint64_t k = 0; k < amount && !enough(); k++) {
    slot_t *s = &S[0];
    s_init(s, any_seed(), any_seed());
    n_hist++;
    unsigned kind = (unsigned)rndn(4);
    size_t fixed = 1 + rndn(rndn(2) ? 70 : 3000);
    unsigned calls = (unsigned)(kind == 0 ? 70000 : 200 + rndn(3000));
    hist_n = 0;
    h_add("long kind=%u fixed=%zu calls=%u", kind, fixed, calls);
    for (unsigned i = 0; i < calls; i++) {
      size_t n = kind == 0 ? 1 + rndn(2)
                 : kind == 1 ? fixed
                 : kind == 2 ? rndn(fixed + 1)
                             : (rndn(20) ? rndn(300) : rndn(max));
      s_update_at(s, buf + rndn(max + 64 - n), n);
      if (rndn(calls) < 4)
        s_check(s, rndn(2), true, "long");
    }
    s_check(s, rndn(2), false, "long, end");
  }
}

/* totals around 2^29 (the bit count exceeds 32 bits), 2^31, 2^32, 2^33 */
static void ph_total(uint64_t amount) {
  size_t chunk = (size_t)8 << 20;
  uint8_t *buf = malloc(chunk + 64);
  rnd_fill(buf, chunk + 64);
  static const uint64_t marks[] = {1ull << 29, 1ull << 30, 1ull << 31,
                                   1ull << 32, 1ull << 33};
  slot_t *s = &S[0];
  hist_n = 0;
  h_add("totals, shard %u", shard);
  s_init(s, any_seed(), any_seed());
  n_hist++;
  s_update_at(s, buf, 1 + rndn(31));
  for (unsigned i = 0; i < amount && i < 5 && !enough(); i++) {
    while (s->total + 2 * chunk < marks[i])
      s_update_at(s, buf + rndn(64), chunk - rndn(64));
    /* approach, and pass the mark */
    while (s->total < marks[i] + 40) {
      uint64_t left = marks[i] > s->total ? marks[i] - s->total : 1;
      s_update_at(s, buf + rndn(64),
                  (size_t)(left > 200 ? left - rndn(100) - 1 : 1 + rndn(3)));
      if (s->total + 100 > marks[i]) {
        s_check(s, 0, true, "totals");
        s_check(s, 1, true, "totals");
      }
    }
    stat_out("totals_marks_passed", 1);
    printf("SAMPLE total=%" PRIu64 " after %u updates\n", s->total, s->ops);
  }
  s_check(s, rndn(2), false, "totals, end");
}

/* single updates longer than 2^32 (64-bit) or 2^31 (32-bit) */
static void ph_hugechunk(uint64_t amount) {
  huge_t h = huge_new();
  for (uint64_t k = 0; k < amount && !enough(); k++) {
    uint64_t base = sizeof(void *) == 8
                        ? (k % 3 == 2 ? 3ull << 31 : 1ull << 32)
                        : (k % 2 ? 1u << 30 : (1u << 31) - 1000);
    size_t part = k & 1 ? rndn(32) : rndn(100);
    size_t len = (size_t)(base + rndn(300) - 100);
    if (k % 2 == 0) { /* the low half is less than the free space */
      part = 1 + rndn(31);
      len = (size_t)(base + rndn(32 - part));
    }
    size_t off = rndn(64);
    uint8_t *m = huge_map(&h, len + off);
    if (!m) {
      printf("NOTE no address space for %zu\n", len);
      continue;
    }
    slot_t *s = &S[0];
    s_init(s, any_seed(), any_seed());
    n_hist++;
    hist_n = 0;
    h_add("huge chunk: %zu, %zu", part, len);
    s_update_at(s, h.w + 100, part);
    s_update_at(s, m + off, len);
    s_check(s, 0, true, "huge chunk");
    s_update_at(s, h.w + 7, rndn(70));
    s_check(s, 1, false, "huge chunk");
    printf("SAMPLE %s\n", hist);
    stat_out("huge_chunks", 1);
    huge_unmap(m, len + off);
  }
}

/* chunks of every order of magnitude, 2^8 .. 2^amount, into an empty and into
 * a partly filled buffer, as the first and as a later one */
static void ph_pow(uint64_t amount) {
  huge_t h = huge_new();
  size_t max = (size_t)1 << amount;
  uint8_t *m = huge_map(&h, max + 8192);
  if (!m)
    die("no address space");
  for (unsigned b = 8; b <= amount && !enough(); b++)
    for (unsigned k = 0; k < (b < 20 ? 24 : b < 23 ? 8 : 4); k++) {
      size_t p = (size_t)1 << b, off = rndn(64);
      size_t len = k & 2 && b < amount ? p + rndn(p) : p + rndn(70) - 35;
      size_t part = k & 1 ? 0 : 1 + rndn(31);
      slot_t *s = &S[0];
      s_init(s, any_seed(), any_seed());
      n_hist++;
      hist_n = 0;
      h_add("pow chunk: %zu, %zu", part, len);
      s_update_at(s, h.w + rndn(64), k & 4 ? 32 * rndn(9) + part : part);
      s_update_at(s, m + off, len);
      s_check(s, rndn(2), true, "pow chunk");
      if (b > 20)
        stat_out("chunks_beyond_1m", 1);
      s_update_at(s, h.w + 7, rndn(70));
      s_check(s, rndn(2), false, "pow chunk");
    }
}

/* Totals that no run can reach. The context is found to hold the number of
 * bytes as one 64-bit integer, if it does; then this is advanced by a multiple
 * of 32 as blocks would do (the state of the mixing is arbitrary anyway, the
 * model's is the same). That this is right is tried with totals of up to
 * 2^20 first; if it isn't, the phase tells nothing. */
static size_t forge_at = (size_t)-1;
static void forge(slot_t *s, uint64_t add) {
  uint64_t v;
  memcpy(&v, (uint8_t *)s->ctx + forge_at, 8);
  v += add;
  memcpy((uint8_t *)s->ctx + forge_at, &v, 8);
  s->m.total += add;
  s->total += add;
}
static bool forge_same(slot_t *s, bool wide) {
  m_res want = m_stream_final(&s->m, wide);
  void *c = ctx_get();
  memcpy(c, s->ctx, g_ctx_size);
  uint64_t hi = 0, lo = g_final(c, wide ? &hi : NULL);
  ctx_put(c);
  return lo == want.lo && (!wide || hi == want.hi);
}
static void ph_forge(uint64_t amount) {
  size_t first = NVALS;
  if (getenv("VERIF_DICT"))
    vals_load(getenv("VERIF_DICT"));
  size_t nd = NVALS - first, max = 70000;
  uint8_t *buf = malloc(max + 64);
  rnd_fill(buf, max + 64);
  slot_t *s = &S[0];
  hist_n = 0;
  h_add("to find the count of bytes");
  static uint8_t cand[512];
  memset(cand, 1, sizeof(cand));
  for (int k = 0; k < 100; k++) {
    s_init(s, rnd(), rnd());
    unsigned n = (unsigned)rndn(4);
    for (unsigned u = 0; u <= n; u++)
      s_update_at(s, buf + rndn(64), 1 + rndn(u ? 3000 : 60));
    for (size_t i = 0; i < sizeof(cand); i++) {
      uint64_t v;
      if (i + 8 > g_ctx_size || (memcpy(&v, (uint8_t *)s->ctx + i, 8), v != s->total))
        cand[i] = 0;
    }
    s_check(s, rndn(2), false, "forge, before");
  }
  for (size_t i = 0; i < sizeof(cand); i++)
    if (cand[i]) {
      if (forge_at != (size_t)-1) {
        printf("NOTE forge: more than one count\n");
        return;
      }
      forge_at = i;
    }
  if (forge_at == (size_t)-1) {
    printf("NOTE forge: the context holds no count of bytes\n");
    return;
  }
  for (int k = 0; k < 2000; k++) {
    s_init(s, any_seed(), any_seed());
    unsigned n = (unsigned)rndn(3);
    for (unsigned u = 0; u < n; u++)
      s_update_at(s, buf + rndn(64), rndn(200));
    forge(s, 32 * rndn(1 << (k % 15)));
    n = (unsigned)rndn(3);
    for (unsigned u = 0; u < n; u++)
      s_update_at(s, buf + rndn(64), rndn(200));
    if (!forge_same(s, k & 1)) {
      printf("NOTE forge: a count alone does not make the state\n");
      return;
    }
  }
  uint64_t big = 0;
  for (uint64_t k = 0; k < amount && !enough(); k++) {
    s_init(s, any_seed(), any_seed());
    n_hist++;
    hist_n = 0;
    size_t n0 = rndn(3) ? rndn(100) : 0;
    h_add("%zu,", n0);
    s_update_at(s, buf + rndn(64), n0);
    uint64_t t;
    if (nd && rndn(3) == 0) { /* the code's constants, as bytes or bits */
      t = VALS[first + rndn(nd)];
      t = rndn(3) ? t : rndn(2) ? t << rndn(8) : t >> rndn(8);
      t -= rndn(400);
    } else if (rndn(2)) {
      t = (uint64_t)1 << (8 + rndn(53));
      t += rndn(4) ? rndn(800) - 400 : t ? rndn(t) : 0;
    } else
      t = rnd() >> rndn(56);
    t &= (((uint64_t)1 << 61) - 1) & ~(uint64_t)31;
    if (t >> 60 > 1 || t > ((uint64_t)1 << 61) - 400000)
      t >>= 1, t &= ~(uint64_t)31;
    h_add(" and as if %" PRIu64 " more,", t);
    forge(s, t);
    unsigned n = (unsigned)rndn(5);
    for (unsigned u = 0; u < n; u++) {
      size_t l = rndn(12) ? rndn(80) : rndn(rndn(3) ? 1000 : max);
      h_add(" %zu", l);
      s_update_at(s, buf + rndn(64), l);
      if (rndn(4) == 0)
        s_check(s, rndn(2), true, "forge");
    }
    s_check(s, rndn(2), false, "forge");
    big += t >> 34 != 0;
  }
  stat_out("totals_beyond_16g", big);
}

/* the constants of the code as sizes, totals, seeds and chunk counts */
static void ph_dict(uint64_t amount) {
  size_t first = NVALS;
  vals_load(getenv("VERIF_DICT"));
  size_t n = NVALS - first;
  size_t max = (size_t)2 << 20;
  uint8_t *buf = malloc(max + 64);
  rnd_fill(buf, max + 64);
  for (size_t i = 0; i < n && !enough(); i++) {
    if (!mine(i))
      continue;
    uint64_t v = VALS[first + i];
    for (uint64_t k = 0; k < amount; k++) {
      slot_t *s = &S[0];
      for (unsigned sh = 0; sh < 12 && v >> 22 == 0 && v << sh <= max; sh++) {
        size_t l = (size_t)(v << sh) + rndn((uint64_t)1 << sh);
        if (l > max)
          break;
        hist_n = 0;
        h_add("dict %zu", l);
        size_t part = rndn(64);
        s_init(s, any_seed(), any_seed());
        s_update_at(s, buf, part);
        s_update_at(s, buf + rndn(64), l);
        s_check(s, rndn(2), true, "dict chunk");
        s_update_at(s, buf, 1 + rndn(40));
        s_check(s, rndn(2), false, "dict chunk");
        /* as a total, in pieces */
        s_init(s, any_seed(), any_seed());
        for (size_t at = 0; at < l;) {
          size_t c = 1 + rndn(1 + l / 3);
          if (c > l - at)
            c = l - at;
          s_update_at(s, buf + at, c);
          at += c;
        }
        s_check(s, rndn(2), false, "dict total");
        n_hist += 2;
      }
      uint64_t seeds[] = {v, ~v, v << 32, v << 32 | (uint32_t)rnd(),
                          (uint64_t)(uint32_t)v | rnd() << 32,
                          __builtin_bswap64(v)};
      for (unsigned a = 0; a < 6; a++)
        for (int side = 0; side < 3; side++) {
          size_t l = rndn(120), c = rndn(l + 1);
          s_init(s, side == 1 ? rnd() : seeds[a],
                 side == 0 ? rnd() : seeds[a]);
          s_update_at(s, buf, c);
          s_update_at(s, buf + c, l - c);
          hist_n = 0;
          h_add("dict seed; %zu %zu", c, l - c);
          s_check(s, rndn(2), false, "dict seed");
          n_hist++;
        }
    }
  }
  stat_out("dict_values", n);
}

#ifdef WITH_COV
#include "cmpcov.h"
#endif

int main(int argc, char **argv) {
  if (argc != 5)
    die("usage");
  shard = (unsigned)atoi(argv[3]);
  shards = (unsigned)atoi(argv[4]);
  uint64_t h = shard * 1000003u + 77;
  for (const char *s = argv[1]; *s; s++)
    h = h * 31 + (uint8_t)*s;
  common_init(argc, argv, h);
  vals_init();
  if (!g_t2_present)
    die("t1ha2 is disabled");
  D = arena_new(5);
  ctx_setup();
  uint64_t amount = strtoull(argv[2], 0, 0);
  const char *ph = argv[1];
  rec_what("%s", ph);
#ifdef WITH_COV
  cmp_on = 1;
#endif
  if (!strcmp(ph, "split"))
    ph_split(amount);
  else if (!strcmp(ph, "pxc"))
    ph_pxc(amount);
  else if (!strcmp(ph, "hist"))
    ph_hist(amount);
  else if (!strcmp(ph, "long"))
    ph_long(amount);
  else if (!strcmp(ph, "total"))
    ph_total(amount);
  else if (!strcmp(ph, "pow"))
    ph_pow(amount);
  else if (!strcmp(ph, "forge"))
    ph_forge(amount);
  else if (!strcmp(ph, "hugechunk"))
    ph_hugechunk(amount);
  else if (!strcmp(ph, "dict"))
    ph_dict(amount);
  else
    die("phase %s", ph);
#ifdef WITH_COV
  const char *out = getenv("VERIF_DICT_OUT");
  if (out) {
    FILE *f = fopen(out, "w");
    for (size_t i = 0; f && i < cmp_nconsts; i++)
      fprintf(f, "%" PRIx64 "\n", cmp_consts[i]);
    if (f)
      fclose(f);
    stat_out("harvested_constants", cmp_nconsts);
  }
#endif
  stat_out("finals_compared", n_final);
  stat_out("updates", n_update);
  stat_out("histories", n_hist);
  stat_out("context_copies", n_copy);
  stat_out("bytes", n_bytes);
  stat_out("max_partial_x_chunk_pairs", n_pc);
  return 0;
}
