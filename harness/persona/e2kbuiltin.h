/* What the sources use of LCC's builtins for Elbrus, from its documentation */
#ifndef PERSONA_E2KBUILTIN_H
#define PERSONA_E2KBUILTIN_H
#include <stdint.h>
static __inline uint64_t persona_umulhd(uint64_t a, uint64_t b) {
  return (uint64_t)((unsigned __int128)a * b >> 64);
}
static __inline uint64_t persona_ld64be(const void *p) {
  return __builtin_bswap64(*(const uint64_t *)p);
}
static __inline uint32_t persona_ld32be(const void *p) {
  return __builtin_bswap32(*(const uint32_t *)p);
}
#define __builtin_e2k_umulhd persona_umulhd
#define __builtin_e2k_addcd(a, b, c) ((uint64_t)(a) + (uint64_t)(b) + ((c) & 1))
#define __builtin_e2k_addcd_c(a, b, c)                                        \
  ((uint64_t)((unsigned __int128)(uint64_t)(a) + (uint64_t)(b) + ((c) & 1) >> 64))
#define __builtin_e2k_ld_64s_be persona_ld64be
#define __builtin_e2k_ld_32u_be persona_ld32be
#endif
