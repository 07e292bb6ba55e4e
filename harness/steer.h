/* What m_steer() makes of the operands of the multiplications. */
#pragma once
#include "model.h"

/* operands at the boundaries of the carries between the 32-bit columns of a
 * long multiplication by the prime p */
static uint32_t inv32(uint32_t x) {
  uint32_t r = x;
  for (int i = 0; i < 5; i++)
    r *= 2 - x * r;
  return r;
}
static uint32_t near32(void) {
  uint32_t r = rndn(3) ? (uint32_t)rndn(4) - 2 : (uint32_t)rnd() >> rndn(32);
  return rndn(4) ? r : rndn(2) ? ~r : r ^ 0x80000000u;
}
static uint64_t n_carry;
static uint64_t carry_operand(uint64_t p) {
  uint32_t bl = (uint32_t)p, bh = (uint32_t)(p >> 32), al;
  switch (rndn(4)) {
  case 0: /* the low half of the first product */
    al = near32() * inv32(bl);
    break;
  case 1: { /* the low half of the cross product */
    unsigned s = (unsigned)__builtin_ctz(bh);
    al = (near32() >> s) * inv32(bh >> s) | (s ? (uint32_t)rnd() << (32 - s) : 0);
    break;
  }
  case 2:
    al = near32();
    break;
  default:
    al = (uint32_t)rnd();
  }
  uint32_t x = (uint32_t)((uint64_t)al * bl >> 32), y = al * bh, t;
  switch (rndn(8)) {
  case 0:
    t = -x; /* the first addition ends in zero */
    break;
  case 1:
    t = -x - 1 + (uint32_t)rndn(3);
    break;
  case 2:
    t = -x - y; /* the second does */
    break;
  case 3:
    t = -x - y - 1 + (uint32_t)rndn(3);
    break;
  case 4:
    t = y;
    break;
  case 5:
    t = x;
    break;
  case 6:
    t = rndn(2) ? ~y : ~x;
    break;
  default:
    t = near32();
  }
  n_carry++;
  return (uint64_t)(t * inv32(bl)) << 32 | al;
}
static uint64_t pick(void *ctx, unsigned site, bool *use) {
  *use = rndn(*(unsigned *)ctx) == 0;
  if (rndn(2))
    return carry_operand(m_primes[rndn(8) ? site % 7 : rndn(7)]);
  return rndn(3) ? val() : (val() << 32 | (uint32_t)val());
}
