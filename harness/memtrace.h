/* Byte-exact log of the library's loads and stores: clang's
 * -fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores plus
 * -Wl,--wrap for the mem* functions. */
#pragma once
#include <stddef.h>
#include <stdint.h>
typedef struct {
  uintptr_t addr;
  uint32_t size;
  uint8_t store;
} mt_ev;
#define MT_CAP (1 << 16)
extern mt_ev mt_log[MT_CAP];
extern size_t mt_n;
extern int mt_on;
/* long inputs: instead of the log, the events in [mt_alo, mt_ahi) are compared
 * with the input at once; mt_got marks its bytes that are loaded */
extern uintptr_t mt_alo, mt_ahi, mt_ilo, mt_ihi;
extern uint8_t *mt_got;
extern mt_ev mt_bad; /* the first one that is not allowed */
extern uint64_t mt_loads, mt_stores;
