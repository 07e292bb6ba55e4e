/* What the sources use of the <intrin.h> of Visual C++, written from its
 * documentation; clang's own wants the platform to be Windows.
 * _rotr, _rotr64, _byteswap_*, __umulh... are built in by -fms-extensions. */
#ifndef PERSONA_INTRIN_H
#define PERSONA_INTRIN_H
#include <stdint.h>
static __inline void persona_cpuidex(int info[4], int leaf, int sub) {
  __asm__ __volatile__("cpuid"
                       : "=a"(info[0]), "=b"(info[1]), "=c"(info[2]),
                         "=d"(info[3])
                       : "0"(leaf), "2"(sub));
}
static __inline uint64_t persona_xgetbv(unsigned n) {
  uint32_t a, d;
  __asm__ __volatile__(".byte 0x0f, 0x01, 0xd0" : "=a"(a), "=d"(d) : "c"(n));
  return (uint64_t)d << 32 | a;
}
#undef __cpuid
#undef __cpuidex
#undef _xgetbv
#define __cpuid(info, leaf) persona_cpuidex(info, leaf, 0)
#define __cpuidex persona_cpuidex
#define _xgetbv persona_xgetbv
#if UINTPTR_MAX > 0xffffFFFFu
static __inline uint64_t persona_umul128(uint64_t a, uint64_t b, uint64_t *h) {
  unsigned __int128 r = (unsigned __int128)a * b;
  *h = (uint64_t)(r >> 64);
  return (uint64_t)r;
}
static __inline uint64_t persona_umulh(uint64_t a, uint64_t b) {
  return (uint64_t)((unsigned __int128)a * b >> 64);
}
#define _umul128 persona_umul128
#define __umulh persona_umulh
/* there, the last argument is unsigned __int64 *, of the same type */
static __inline unsigned char persona_addcarry_u64(unsigned char c, uint64_t a,
                                                   uint64_t b, uint64_t *s) {
  unsigned __int128 r = (unsigned __int128)a + b + !!c;
  *s = (uint64_t)r;
  return (unsigned char)(r >> 64);
}
#define _addcarry_u64 persona_addcarry_u64
#endif
static __inline unsigned char persona_addcarry_u32(unsigned char c, unsigned a,
                                                   unsigned b, unsigned *s) {
  uint64_t r = (uint64_t)a + b + !!c;
  *s = (unsigned)r;
  return (unsigned char)(r >> 32);
}
#define _addcarry_u32 persona_addcarry_u32
static __inline uint64_t persona_emulu(unsigned a, unsigned b) {
  return (uint64_t)a * b;
}
#define __emulu persona_emulu
#define _arm_umull persona_emulu
#define __prefetch(p) ((void)(p))
static __inline uint64_t persona_rotr64(uint64_t v, int s) {
  s &= 63;
  return s ? v >> s | v << (64 - s) : v;
}
static __inline unsigned persona_rotr(unsigned v, int s) {
  s &= 31;
  return s ? v >> s | v << (32 - s) : v;
}
#define _rotl64(v, s) persona_rotr64(v, -(s))
#define _rotl(v, s) persona_rotr(v, -(s))
#define _rotr64 persona_rotr64
#define _rotr persona_rotr
#define _byteswap_uint64(v) __builtin_bswap64(v)
#define _byteswap_ulong(v) __builtin_bswap32(v)
#define _byteswap_ushort(v) __builtin_bswap16(v)
#define _lrotl _rotl
#define _lrotr _rotr
#define __assume(x) ((x) ? (void)0 : __builtin_unreachable())
/* not used at present */
#define __emul(a, b) ((int64_t)(int)(a) * (int)(b))
#if UINTPTR_MAX > 0xffffFFFFu
static __inline int64_t persona_mulh(int64_t a, int64_t b) {
  return (int64_t)((__int128)a * b >> 64);
}
static __inline int64_t persona_mul128(int64_t a, int64_t b, int64_t *h) {
  *h = persona_mulh(a, b);
  return (int64_t)((uint64_t)a * (uint64_t)b);
}
static __inline uint64_t persona_shl128(uint64_t l, uint64_t h,
                                        unsigned char s) {
  s &= 63;
  return s ? h << s | l >> (64 - s) : h;
}
static __inline uint64_t persona_shr128(uint64_t l, uint64_t h,
                                        unsigned char s) {
  s &= 63;
  return s ? l >> s | h << (64 - s) : l;
}
#define __mulh persona_mulh
#define _mul128 persona_mul128
#define __shiftleft128 persona_shl128
#define __shiftright128 persona_shr128
#define _InterlockedCompareExchangePointer __sync_val_compare_and_swap
#define _InterlockedExchangePointer(p, v)                                     \
  __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST)
#endif
#define _ReadWriteBarrier() __asm__ __volatile__("" ::: "memory")
#define _ReadBarrier _ReadWriteBarrier
#define _WriteBarrier _ReadWriteBarrier
#define __debugbreak __builtin_trap
#define __ud2 __builtin_trap
#define __fastfail(x) __builtin_trap()
#endif
