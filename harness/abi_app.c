/* An application: includes t1ha.h and calls what it declares. Each build of
 * this file has options of its own, which needn't be those of the library.
 *   -DAPP=identifier -DAPP_OPTIONS="..." [-DABI_FIRST] [-DABI_PLUGIN] */
struct before { /* laid out before t1ha.h was seen */
  char c;
  double d;
  short s;
  long long l;
};
#ifdef ABI_FIRST
#include "t1ha.h"
#endif
#include <limits.h>
#include <stdlib.h>
#include <string.h>
#include "abi.h"
#include "t1ha.h"
#include "t1ha.h" /* once more */

#ifdef __cplusplus
#define LINKAGE extern "C"
#else
#define LINKAGE
#endif
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define STR_(a) #a
#define STR(a) STR_(a)

struct after {
  char c;
  double d;
  short s;
  long long l;
};
struct with_align {
  char c;
  t1ha_context_t x;
};

#define PRESENT(id) (1u << (id))

static uint64_t call(int id, const void *data, size_t len, uint64_t seed,
                     uint64_t seed2, uint64_t *hi) {
  (void)seed2;
  switch (id) {
#ifndef T1HA2_DISABLED
  case AB_2_64:
    return t1ha2_atonce(data, len, seed);
  case AB_2_128:
    return t1ha2_atonce128(hi, data, len, seed);
  case AB_2S_64:
  case AB_2S_128: {
    t1ha_context_t c;
    t1ha2_init(&c, seed, seed2);
    t1ha2_update(&c, data, len);
    return t1ha2_final(&c, id == AB_2S_128 ? hi : NULL);
  }
#endif
#ifndef T1HA1_DISABLED
  case AB_1_LE:
    return t1ha1_le(data, len, seed);
  case AB_1_BE:
    return t1ha1_be(data, len, seed);
#endif
#ifndef T1HA0_DISABLED
  case AB_0_32LE:
    return t1ha0_32le(data, len, seed);
  case AB_0_32BE:
    return t1ha0_32be(data, len, seed);
  case AB_T1HA0:
    return t1ha0(data, len, seed);
#if T1HA0_RUNTIME_SELECT
  case AB_RESOLVED:
    return t1ha0_resolve()(data, len, seed);
#endif
#endif
  default:
    abort();
  }
}

/* the same arguments, with other bytes in the buffer each time: what the
 * header says about the functions must not let the compiler reuse a value */
static void again(int id, unsigned char *data, size_t len, uint64_t seed,
                  size_t at, unsigned char x, uint64_t *out) {
#define THRICE(F)                                                             \
  out[0] = F(data, len, seed);                                                \
  data[at] ^= x;                                                              \
  out[1] = F(data, len, seed);                                                \
  data[at] ^= x;                                                              \
  out[2] = F(data, len, seed);                                                \
  break;
  switch (id) {
#ifndef T1HA2_DISABLED
  case AB_2_64:
    THRICE(t1ha2_atonce)
  case AB_2_128: {
    uint64_t h0, h1, h2;
    out[0] = t1ha2_atonce128(&h0, data, len, seed);
    data[at] ^= x;
    out[1] = t1ha2_atonce128(&h1, data, len, seed);
    data[at] ^= x;
    out[2] = t1ha2_atonce128(&h2, data, len, seed);
    out[3] = h0;
    out[4] = h1;
    out[5] = h2;
    break;
  }
  case AB_2S_128: { /* one extra result for all, a context begun again */
    t1ha_context_t c;
    uint64_t h;
    int i;
    for (i = 0; i < 3; i++) {
      t1ha2_init(&c, seed, len);
      t1ha2_update(&c, data, len);
      out[i] = t1ha2_final(&c, &h);
      out[3 + i] = h;
      if (i < 2)
        data[at] ^= x;
    }
    break;
  }
#endif
#ifndef T1HA1_DISABLED
  case AB_1_LE:
    THRICE(t1ha1_le)
  case AB_1_BE:
    THRICE(t1ha1_be)
#endif
#ifndef T1HA0_DISABLED
  case AB_0_32LE:
    THRICE(t1ha0_32le)
  case AB_0_32BE:
    THRICE(t1ha0_32be)
  case AB_T1HA0:
    THRICE(t1ha0)
#endif
  default:
    out[0] = out[2] = 1;
    out[1] = 0;
  }
}

/* NULL is a valid address of no data, so it must be possible to find out that
 * it is NULL afterwards */
static int null_kept(int id, const void *data, uint64_t *out) {
  uint64_t hi = 0;
  out[0] = call(id, data, 0, 1, 2, &hi);
  out[1] = hi;
  if (data == NULL)
    return 1;
  return 0;
}

/* addresses in constant data: static initialisers */
static const abi_fn plain[AB_MAX] = {
#ifndef T1HA2_DISABLED
    t1ha2_atonce,
#else
    0,
#endif
    0, 0, 0,
#ifndef T1HA1_DISABLED
    t1ha1_le, t1ha1_be,
#else
    0, 0,
#endif
#ifndef T1HA0_DISABLED
    t1ha0_32le, t1ha0_32be, t1ha0,
#else
    0, 0, 0,
#endif
    0};
#ifndef T1HA2_DISABLED
typedef struct {
  uint64_t (*at128)(uint64_t *, const void *, size_t, uint64_t);
  void (*init)(t1ha_context_t *, uint64_t, uint64_t);
  void (*update)(t1ha_context_t *, const void *, size_t);
  uint64_t (*final)(t1ha_context_t *, uint64_t *);
} entries;
static const entries t2 = {t1ha2_atonce128, t1ha2_init, t1ha2_update,
                           t1ha2_final};
#endif

static uint64_t call_ptr(int id, const void *data, size_t len, uint64_t seed,
                         uint64_t seed2, uint64_t *hi) {
  (void)seed2;
  (void)hi;
#ifndef T1HA2_DISABLED
  if (id == AB_2_128)
    return t2.at128(hi, data, len, seed);
  if (id == AB_2S_64 || id == AB_2S_128) {
    t1ha_context_t c;
    t2.init(&c, seed, seed2);
    t2.update(&c, data, len);
    return t2.final(&c, id == AB_2S_128 ? hi : NULL);
  }
#endif
#if !defined(T1HA0_DISABLED) && T1HA0_RUNTIME_SELECT
  if (id == AB_RESOLVED) {
    t1ha0_function_t f = t1ha0_resolve();
    return f(data, len, seed);
  }
#endif
  if (!plain[id])
    abort();
  return plain[id](data, len, seed);
}

#ifndef T1HA2_DISABLED
#define AROUND 0x5A
static uint64_t run(t1ha_context_t *c, const unsigned char *data,
                    const size_t *chunk, unsigned chunks, uint64_t seed,
                    uint64_t seed2, int wide, uint64_t *hi) {
  unsigned i;
  t1ha2_init(c, seed, seed2);
  for (i = 0; i < chunks; i++) {
    t1ha2_update(c, chunk[i] ? data : NULL, chunk[i]);
    data += chunk[i];
  }
  return t1ha2_final(c, wide ? hi : NULL);
}
static int changed(const void *outer, size_t size, const void *inner,
                   size_t isize) {
  const unsigned char *o = (const unsigned char *)outer,
                      *a = (const unsigned char *)inner;
  size_t i;
  for (i = 0; i < size; i++)
    if ((o + i < a || o + i >= a + isize) && o[i] != AROUND)
      return 1;
  return 0;
}
static struct with_align stat;
struct member {
  char before[3];
  t1ha_context_t x;
  char after[64];
};
static uint64_t stream(int place, const unsigned char *data,
                       const size_t *chunk, unsigned chunks, uint64_t seed,
                       uint64_t seed2, int wide, uint64_t *hi, int *bad) {
  struct {
    unsigned char before[24];
    uint64_t hi;
    unsigned char after[24];
  } out;
  uint64_t r;
  memset(&out, AROUND, sizeof(out));
  *bad = 0;
  switch (place) {
  default: {
    t1ha_context_t c;
    r = run(&c, data, chunk, chunks, seed, seed2, wide, &out.hi);
    break;
  }
  case PL_STATIC:
    r = run(&stat.x, data, chunk, chunks, seed, seed2, wide, &out.hi);
    break;
  case PL_MEMBER: {
    struct member m;
    memset(&m, AROUND, sizeof(m));
    r = run(&m.x, data, chunk, chunks, seed, seed2, wide, &out.hi);
    *bad = changed(&m, sizeof(m), &m.x, sizeof(m.x));
    break;
  }
  case PL_ELEMENT: {
    t1ha_context_t c[3];
    memset(c, AROUND, sizeof(c));
    r = run(&c[1], data, chunk, chunks, seed, seed2, wide, &out.hi);
    *bad = changed(c, sizeof(c), &c[1], sizeof(c[1]));
    break;
  }
  case PL_HEAP: {
    size_t al = offsetof(struct with_align, x), sz = sizeof(t1ha_context_t);
    char *raw = (char *)malloc(sz + 2 * al + 64);
    char *p = raw + 16;
    while ((uintptr_t)p % al)
      p++;
    memset(raw, AROUND, sz + 2 * al + 64);
    r = run((t1ha_context_t *)p, data, chunk, chunks, seed, seed2, wide,
            &out.hi);
    *bad = changed(raw, sz + 2 * al + 64, p, sz);
    free(raw);
    break;
  }
  }
  if (changed(&out, sizeof(out), &out.hi, wide ? sizeof(out.hi) : 0))
    *bad |= 2;
  *hi = wide ? out.hi : 0;
  return r;
}
static void s_init(void *ctx, uint64_t x, uint64_t y) {
  t1ha2_init((t1ha_context_t *)ctx, x, y);
}
static void s_update(void *ctx, const void *data, size_t len) {
  t1ha2_update((t1ha_context_t *)ctx, data, len);
}
static uint64_t s_final(void *ctx, uint64_t *hi) {
  return t1ha2_final((t1ha_context_t *)ctx, hi);
}
static void s_assign(void *to, const void *from) {
  *(t1ha_context_t *)to = *(const t1ha_context_t *)from;
}
#endif

static int selfcheck(unsigned n, int *rc, const char **name) {
#define CHECK(x)                                                              \
  if (!n--) {                                                                 \
    *name = #x;                                                               \
    *rc = t1ha_selfcheck__##x();                                              \
    return 1;                                                                 \
  }
  CHECK(all_enabled)
#ifndef T1HA2_DISABLED
  CHECK(t1ha2_atonce)
  CHECK(t1ha2_atonce128)
  CHECK(t1ha2_stream)
  CHECK(t1ha2)
#endif
#ifndef T1HA1_DISABLED
  CHECK(t1ha1_le)
  CHECK(t1ha1_be)
  CHECK(t1ha1)
#endif
#ifndef T1HA0_DISABLED
  CHECK(t1ha0_32le)
  CHECK(t1ha0_32be)
  CHECK(t1ha0)
#endif
  return -1;
}

LINKAGE const abi_app APP;
const abi_app APP = {
    STR(APP),
    APP_OPTIONS,
    0
#ifndef T1HA2_DISABLED
        | PRESENT(AB_2_64) | PRESENT(AB_2_128) | PRESENT(AB_2S_64) |
        PRESENT(AB_2S_128)
#endif
#ifndef T1HA1_DISABLED
        | PRESENT(AB_1_LE) | PRESENT(AB_1_BE)
#endif
#ifndef T1HA0_DISABLED
        | PRESENT(AB_0_32LE) | PRESENT(AB_0_32BE) | PRESENT(AB_T1HA0)
#if T1HA0_RUNTIME_SELECT
        | PRESENT(AB_RESOLVED)
#endif
#endif
    ,
    {sizeof(t1ha_context_t), offsetof(struct with_align, x)},
    sizeof(struct before) == sizeof(struct after),
    call,
    call_ptr,
    again,
    null_kept,
#ifndef T1HA2_DISABLED
    stream,
    s_init,
    s_update,
    s_final,
    s_assign,
#else
    0,
    0,
    0,
    0,
    0,
#endif
    selfcheck};

#ifdef ABI_PLUGIN
#ifdef ABI_HIDDEN
#define EXPORTED __attribute__((visibility("default")))
#else
#define EXPORTED /* t1ha.h mustn't have changed what the default is */
#endif
LINKAGE EXPORTED const abi_app *abi_plugin(void);
const abi_app *abi_plugin(void) { return &APP; }
#endif
