/* What an application which was built on its own shows to drv_abi.c.
 * Compiled in every dialect from gnu89 and C++98 on. */
#ifndef ABI_H
#define ABI_H
#include <stddef.h>
#include <stdint.h>

enum abi_id {
  AB_2_64, AB_2_128, AB_2S_64, AB_2S_128, AB_1_LE, AB_1_BE, AB_0_32LE,
  AB_0_32BE, AB_T1HA0, AB_RESOLVED, AB_MAX
};
enum abi_place {
  PL_LOCAL, PL_STATIC, PL_MEMBER, PL_ELEMENT, PL_HEAP, PL_MAX
};

typedef uint64_t (*abi_fn)(const void *, size_t, uint64_t);

typedef struct abi_app {
  const char *name;
  const char *options;
  unsigned present;                  /* bits by abi_id */
  unsigned long layout[2];           /* size, alignment of t1ha_context_t */
  int same_packing;                  /* before and after t1ha.h */
  /* calls written in the application's own code */
  uint64_t (*call)(int id, const void *data, size_t len, uint64_t seed,
                   uint64_t seed2, uint64_t *hi);
  /* the same by pointers which the application keeps in constant data */
  uint64_t (*call_ptr)(int id, const void *data, size_t len, uint64_t seed,
                       uint64_t seed2, uint64_t *hi);
  /* three calls: data, data with one byte changed, data; 128-bit: the other
   * halves are in out[3..5] */
  void (*again)(int id, unsigned char *data, size_t len, uint64_t seed,
                size_t at, unsigned char x, uint64_t *out);
  /* hashes nothing at NULL, then tells whether data is NULL */
  int (*null_kept)(int id, const void *data, uint64_t *out);
  /* a stream in a context of the application; *bad: what is around the
   * context was changed */
  uint64_t (*stream)(int place, const unsigned char *data, const size_t *chunk,
                     unsigned chunks, uint64_t seed, uint64_t seed2, int wide,
                     uint64_t *hi, int *bad);
  /* steps of a stream in somebody else's context */
  void (*init)(void *ctx, uint64_t x, uint64_t y);
  void (*update)(void *ctx, const void *data, size_t len);
  uint64_t (*final)(void *ctx, uint64_t *hi);
  /* assignment of contexts as the application does it */
  void (*assign)(void *to, const void *from);
  /* -1: no such self-check (any more), else 0 or 1 and *rc is set */
  int (*selfcheck)(unsigned n, int *rc, const char **name);
} abi_app;

#endif
