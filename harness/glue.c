#include "t1ha.h"
#include "glue.h"
#include <string.h>

#if T1HA0_RUNTIME_SELECT
const int g_runtime_select = 1;
#else
const int g_runtime_select = 0;
#endif
#if T1HA_USE_INDIRECT_FUNCTIONS
const int g_use_ifunc = 1;
#else
const int g_use_ifunc = 0;
#endif
#if T1HA0_AESNI_AVAILABLE && !defined(T1HA0_DISABLED)
const int g_aes_available = 1;
#else
const int g_aes_available = 0;
#endif
#ifndef __e2k__ /* it has no AVX2 variant */
const int g_avx2_available = 1;
#else
const int g_avx2_available = 0;
#endif
#ifndef T1HA1_DISABLED
const int g_t1_present = 1;
#else
const int g_t1_present = 0;
#endif
#ifndef T1HA2_DISABLED
const int g_t2_present = 1;
#else
const int g_t2_present = 0;
#endif
#ifndef T1HA0_DISABLED
const int g_t0_present = 1;
#else
const int g_t0_present = 0;
#endif

g_target g_targets[G_MAX];
static void set(int id, const char *name, int alg, g_fn f) {
  g_targets[id].name = name;
  g_targets[id].present = 1;
  g_targets[id].alg = alg;
  g_targets[id].plain = f;
}

void g_setup(void) {
#ifndef T1HA2_DISABLED
  set(G_2_64, "t1ha2_atonce", M_2_64, t1ha2_atonce);
  set(G_2_128, "t1ha2_atonce128", M_2_128, 0);
  set(G_2S_64, "t1ha2_stream64", M_2S_64, 0);
  set(G_2S_128, "t1ha2_stream128", M_2S_128, 0);
#endif
#ifndef T1HA1_DISABLED
  set(G_1_LE, "t1ha1_le", M_1_LE, t1ha1_le);
  set(G_1_BE, "t1ha1_be", M_1_BE, t1ha1_be);
#endif
#ifndef T1HA0_DISABLED
  set(G_0_32LE, "t1ha0_32le", M_0_32LE, t1ha0_32le);
  set(G_0_32BE, "t1ha0_32be", M_0_32BE, t1ha0_32be);
#if T1HA0_AESNI_AVAILABLE && !defined(GLUE_API)
  set(G_NOAVX, "t1ha0_ia32aes_noavx", M_AES_A, t1ha0_ia32aes_noavx);
  set(G_AVX, "t1ha0_ia32aes_avx", M_AES_A, t1ha0_ia32aes_avx);
#ifndef __e2k__
  set(G_AVX2, "t1ha0_ia32aes_avx2", M_AES_B, t1ha0_ia32aes_avx2);
#endif
#endif
  set(G_T1HA0, "t1ha0", -1, 0);
#if T1HA0_RUNTIME_SELECT
  set(G_RESOLVED, "t1ha0_resolve()", -1, 0);
#endif
#endif
}

#ifdef GLUE_T0PTR
#if !defined(T1HA0_DISABLED) && T1HA0_RUNTIME_SELECT &&                        \
    !T1HA_USE_INDIRECT_FUNCTIONS
g_fn *const g_t0_pointer = &t1ha0_funcptr;
#else
g_fn *const g_t0_pointer = 0;
#endif
#endif

g_fn g_resolve(void) {
#if !defined(T1HA0_DISABLED) && T1HA0_RUNTIME_SELECT
  return t1ha0_resolve();
#else
  return 0;
#endif
}

uint64_t g_call(int id, const void *data, size_t len, uint64_t seed,
                uint64_t seed2, uint64_t *hi) {
  switch (id) {
#ifndef T1HA2_DISABLED
  case G_2_64:
    return t1ha2_atonce(data, len, seed);
  case G_2_128:
    return t1ha2_atonce128(hi, data, len, seed);
  case G_2S_64:
  case G_2S_128: {
    t1ha_context_t c;
    t1ha2_init(&c, seed, seed2);
    t1ha2_update(&c, data, len);
    return t1ha2_final(&c, id == G_2S_128 ? hi : NULL);
  }
#endif
#ifndef T1HA1_DISABLED
  case G_1_LE:
    return t1ha1_le(data, len, seed);
  case G_1_BE:
    return t1ha1_be(data, len, seed);
#endif
#ifndef T1HA0_DISABLED
  case G_0_32LE:
    return t1ha0_32le(data, len, seed);
  case G_0_32BE:
    return t1ha0_32be(data, len, seed);
#if T1HA0_AESNI_AVAILABLE && !defined(GLUE_API)
  case G_NOAVX:
    return t1ha0_ia32aes_noavx(data, len, seed);
  case G_AVX:
    return t1ha0_ia32aes_avx(data, len, seed);
#ifndef __e2k__
  case G_AVX2:
    return t1ha0_ia32aes_avx2(data, len, seed);
#endif
#endif
  case G_T1HA0:
    return t1ha0(data, len, seed);
#if T1HA0_RUNTIME_SELECT
  case G_RESOLVED:
    return t1ha0_resolve()(data, len, seed);
#endif
#endif
  default:
    break;
  }
  (void)data, (void)len, (void)seed, (void)seed2, (void)hi;
  __builtin_trap();
}

#ifndef T1HA2_DISABLED
const size_t g_ctx_size = sizeof(t1ha_context_t);
const size_t g_ctx_align = __alignof__(t1ha_context_t);
void g_init(void *ctx, uint64_t x, uint64_t y) {
  t1ha2_init((t1ha_context_t *)ctx, x, y);
}
void g_update(void *ctx, const void *data, size_t len) {
  t1ha2_update((t1ha_context_t *)ctx, data, len);
}
uint64_t g_final(void *ctx, uint64_t *hi) {
  return t1ha2_final((t1ha_context_t *)ctx, hi);
}
#else
const size_t g_ctx_size = 0, g_ctx_align = 1;
void g_init(void *ctx, uint64_t x, uint64_t y) { (void)ctx, (void)x, (void)y; }
void g_update(void *ctx, const void *d, size_t l) { (void)ctx, (void)d, (void)l; }
uint64_t g_final(void *ctx, uint64_t *hi) { (void)ctx, (void)hi; return 0; }
#endif

void *g_addr(const char *name) {
#ifndef T1HA2_DISABLED
  if (!strcmp(name, "t1ha2_atonce128"))
    return (void *)t1ha2_atonce128;
  if (!strcmp(name, "t1ha2_init"))
    return (void *)t1ha2_init;
  if (!strcmp(name, "t1ha2_update"))
    return (void *)t1ha2_update;
  if (!strcmp(name, "t1ha2_final"))
    return (void *)t1ha2_final;
#endif
  for (int i = 0; i < G_MAX; i++)
    if (g_targets[i].present && g_targets[i].plain &&
        !strcmp(name, g_targets[i].name))
      return (void *)g_targets[i].plain;
  return 0;
}

#ifdef GLUE_SELFCHECK
static const struct {
  const char *name;
  int (*fn)(void);
} sc[] = {
    {"all_enabled", t1ha_selfcheck__all_enabled},
#ifndef T1HA2_DISABLED
    {"t1ha2_atonce", t1ha_selfcheck__t1ha2_atonce},
    {"t1ha2_atonce128", t1ha_selfcheck__t1ha2_atonce128},
    {"t1ha2_stream", t1ha_selfcheck__t1ha2_stream},
    {"t1ha2", t1ha_selfcheck__t1ha2},
#endif
#ifndef T1HA1_DISABLED
    {"t1ha1_le", t1ha_selfcheck__t1ha1_le},
    {"t1ha1_be", t1ha_selfcheck__t1ha1_be},
    {"t1ha1", t1ha_selfcheck__t1ha1},
#endif
#ifndef T1HA0_DISABLED
    {"t1ha0_32le", t1ha_selfcheck__t1ha0_32le},
    {"t1ha0_32be", t1ha_selfcheck__t1ha0_32be},
    {"t1ha0", t1ha_selfcheck__t1ha0},
#if T1HA0_AESNI_AVAILABLE
    {"t1ha0_ia32aes_noavx", t1ha_selfcheck__t1ha0_ia32aes_noavx},
    {"t1ha0_ia32aes_avx", t1ha_selfcheck__t1ha0_ia32aes_avx},
#ifndef __e2k__
    {"t1ha0_ia32aes_avx2", t1ha_selfcheck__t1ha0_ia32aes_avx2},
#endif
#endif
#endif
};
int g_selfcheck(const char *name, int *rc) {
  for (unsigned i = 0; i < sizeof(sc) / sizeof(*sc); i++)
    if (!strcmp(name, sc[i].name)) {
      *rc = sc[i].fn();
      return 1;
    }
  return 0;
}
#else
int g_selfcheck(const char *name, int *rc) {
  (void)name, (void)rc;
  return 0;
}
#endif
