#include "memtrace.h"
mt_ev mt_log[MT_CAP];
size_t mt_n;
int mt_on;
uintptr_t mt_alo, mt_ahi, mt_ilo, mt_ihi;
uint8_t *mt_got;
mt_ev mt_bad;
uint64_t mt_loads, mt_stores;
void *__real_memset(void *, int, size_t);
static void ev(const void *p, size_t n, int st) {
  if (!mt_on || !n)
    return;
  if (st)
    mt_stores++;
  else
    mt_loads++;
  if (mt_got) {
    uintptr_t a = (uintptr_t)p;
    if (a + n <= mt_alo || a >= mt_ahi)
      return;
    if (st || a < mt_ilo || a + n > mt_ihi) {
      if (!mt_bad.size)
        mt_bad = (mt_ev){a, (uint32_t)n, (uint8_t)st};
    } else
      __real_memset(mt_got + (a - mt_ilo), 1, n);
    return;
  }
  if (mt_n < MT_CAP)
    mt_log[mt_n++] = (mt_ev){(uintptr_t)p, (uint32_t)n, (uint8_t)st};
}
#define H(n)                                                                   \
  void __sanitizer_cov_load##n(void *p) { ev(p, n, 0); }                       \
  void __sanitizer_cov_store##n(void *p) { ev(p, n, 1); }
H(1) H(2) H(4) H(8) H(16)
void __sanitizer_cov_trace_pc_guard(uint32_t *g) { (void)g; }
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
  (void)a, (void)b;
}
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) {
  ev(s, n, 0), ev(d, n, 1);
  return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n) {
  ev(s, n, 0), ev(d, n, 1);
  return __real_memmove(d, s, n);
}
void *__wrap_memset(void *d, int c, size_t n) {
  ev(d, n, 1);
  return __real_memset(d, c, n);
}
