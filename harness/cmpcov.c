#include "cmpcov.h"
#include <string.h>
cmp_ev cmp_log[CMP_CAP];
size_t cmp_n;
int cmp_on;
uint64_t cmp_consts[CMP_CONSTS];
size_t cmp_nconsts, cmp_nsites, cmp_nsites_eq;
static uint64_t chash[CMP_CONSTS * 2];
static uint8_t cused[CMP_CONSTS * 2];
#define SITES 65536
static uintptr_t spc[SITES];
static uint8_t sseen[SITES];
static int fresh;

static void add_const(uint64_t v) {
  size_t h = (size_t)((v * 0x9E3779B97F4A7C15ull) >> 50) % (CMP_CONSTS * 2);
  while (cused[h]) {
    if (chash[h] == v)
      return;
    h = (h + 1) % (CMP_CONSTS * 2);
  }
  if (cmp_nconsts >= CMP_CONSTS)
    return;
  cused[h] = 1;
  chash[h] = v;
  cmp_consts[cmp_nconsts++] = v;
}
static void ev(uintptr_t pc, uint64_t a, uint64_t b, uint8_t w, uint8_t c) {
  if (!cmp_on)
    return;
  if (c)
    add_const(a);
  size_t h = (size_t)((pc * 0x9E3779B97F4A7C15ull) >> 48) % SITES;
  while (spc[h] && spc[h] != pc)
    h = (h + 1) % SITES;
  if (!spc[h]) {
    spc[h] = pc;
    cmp_nsites++;
  }
  uint8_t o = a == b ? 4 : a < b ? 1 : 2;
  if (!(sseen[h] & o)) {
    sseen[h] |= o;
    if (o == 4)
      cmp_nsites_eq++;
    fresh = 1;
  }
  if (cmp_n < CMP_CAP)
    cmp_log[cmp_n++] = (cmp_ev){pc, a, b, w, c};
}
int cmp_take_new(void) {
  int r = fresh;
  fresh = 0;
  return r;
}
#define PC ((uintptr_t)__builtin_return_address(0))
#define H(n, t)                                                                \
  void __sanitizer_cov_trace_cmp##n(t a, t b) { ev(PC, a, b, n, 0); }          \
  void __sanitizer_cov_trace_const_cmp##n(t a, t b) { ev(PC, a, b, n, 1); }
H(1, uint8_t)
H(2, uint16_t)
H(4, uint32_t)
H(8, uint64_t)
void __sanitizer_cov_trace_switch(uint64_t v, uint64_t *c) {
  for (uint64_t i = 0; i < c[0]; i++)
    ev(PC + i * 0x100000, c[2 + i], v, (uint8_t)(c[1] / 8), 1);
}
void __sanitizer_cov_trace_div4(uint32_t v) { ev(PC, v, v, 4, 1); }
void __sanitizer_cov_trace_div8(uint64_t v) { ev(PC, v, v, 8, 1); }
/* coverage counters of the library's blocks */
static uint8_t *c_start[64], *c_stop[64];
static int c_n;
void __sanitizer_cov_8bit_counters_init(uint8_t *a, uint8_t *b) {
  for (int i = 0; i < c_n; i++)
    if (c_start[i] == a)
      return;
  if (a != b && c_n < 64)
    c_start[c_n] = a, c_stop[c_n++] = b;
}
void cmp_blocks(size_t *hit, size_t *total) {
  *hit = *total = 0;
  for (int i = 0; i < c_n; i++)
    for (uint8_t *p = c_start[i]; p < c_stop[i]; p++)
      ++*total, *hit += *p != 0;
}
