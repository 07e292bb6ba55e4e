/* The only view of the library that the drivers have: a table of targets,
 * filled by glue.c which is compiled per configuration with t1ha.h itself. */
#pragma once
#include "model.h"
#include <stddef.h>
#include <stdint.h>

#ifdef __cplusplus
extern "C" {
#endif
enum g_id {
  G_2_64, G_2_128, G_2S_64, G_2S_128, G_1_LE, G_1_BE, G_0_32LE, G_0_32BE,
  G_NOAVX, G_AVX, G_AVX2, G_T1HA0, G_RESOLVED, G_MAX
};
typedef uint64_t (*g_fn)(const void *, size_t, uint64_t);

typedef struct {
  const char *name;
  int present;      /* compiled into this configuration */
  int alg;          /* enum m_alg, or -1: decided by the driver (t1ha0) */
  g_fn plain;       /* address of the implementation, when it is one */
} g_target;

extern g_target g_targets[G_MAX];
void g_setup(void);
extern const int g_avx2_available;
extern const int g_runtime_select, g_use_ifunc, g_aes_available, g_t1_present,
    g_t2_present, g_t0_present;
g_fn g_resolve(void);
extern g_fn *const g_t0_pointer; /* only with GLUE_T0PTR; 0 when not used */
/* hi is stored only for 128-bit targets */
uint64_t g_call(int id, const void *data, size_t len, uint64_t seed,
                uint64_t seed2, uint64_t *hi);

/* stream API */
extern const size_t g_ctx_size, g_ctx_align;
void g_init(void *ctx, uint64_t x, uint64_t y);
void g_update(void *ctx, const void *data, size_t len);
uint64_t g_final(void *ctx, uint64_t *hi);

/* the entry of a function, by name */
void *g_addr(const char *name);

/* self-check API, by name; returns 1 and sets *rc when it is present */
int g_selfcheck(const char *name, int *rc);
extern const char *const g_selfcheck_names[];
#ifdef __cplusplus
}
#endif
