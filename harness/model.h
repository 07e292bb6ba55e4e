/* Executable specification of the t1ha family, written independently of the
 * sources in /repo: byte-wise loads, own constants, own AES round.
 * It is validated at the start of every run against the frozen reference
 * vectors of golden.h. */
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>

typedef struct {
  uint64_t lo; /* the returned value */
  uint64_t hi; /* *extra_result for 128-bit modes, else 0 */
} m_res;

enum m_alg {
  M_2_64,      /* t1ha2_atonce */
  M_2_128,     /* t1ha2_atonce128 */
  M_2S_64,     /* init(seed, seed2)/update/final(NULL) */
  M_2S_128,    /* init(seed, seed2)/update/final(&hi) */
  M_1_LE,
  M_1_BE,
  M_0_32LE,
  M_0_32BE,
  M_AES_A,     /* t1ha0_ia32aes_noavx, t1ha0_ia32aes_avx */
  M_AES_B,     /* t1ha0_ia32aes_avx2 */
  M_ALGS
};

extern const char *const m_name[M_ALGS];

m_res m_hash(enum m_alg alg, const void *data, size_t len, uint64_t seed,
             uint64_t seed2);

/* Incremental model of the stream mode (reference semantics: the hash of the
 * concatenation; here processed block by block, with own buffering). */
typedef struct {
  uint64_t a, b, c, d, total;
  unsigned fill;
  uint8_t buf[32];
} m_stream;
void m_stream_init(m_stream *, uint64_t x, uint64_t y);
void m_stream_update(m_stream *, const void *, size_t);
m_res m_stream_final(const m_stream *, bool wide);

extern const uint64_t m_primes[7];

/* Operand steering: while computing, the model may rewrite the data words it is
 * about to consume so that a multiplication gets a chosen operand.
 * `pick()` returns the wanted operand, or sets *use=false to leave as is. */
typedef uint64_t (*m_pick_fn)(void *ctx, unsigned site, bool *use);
void m_steer(enum m_alg alg, uint8_t *data, size_t len, uint64_t seed,
             uint64_t seed2, m_pick_fn pick, void *ctx);

/* returns 0 when the model reproduces all frozen vectors */
int m_validate(void);
/* the 81 inputs of the frozen vectors */
typedef struct {
  const uint8_t *data;
  size_t len;
  uint64_t seed;
} m_vec;
extern m_vec m_vectors[81];
extern const uint64_t *const m_golden[M_ALGS];
