/* Records the comparisons which the library executes (built by clang with
 * -fsanitize-coverage=trace-cmp). */
#pragma once
#include <stddef.h>
#include <stdint.h>
typedef struct {
  uintptr_t pc;
  uint64_t a, b; /* a is the constant for is_const */
  uint8_t width, is_const;
} cmp_ev;
#define CMP_CAP 2048
extern cmp_ev cmp_log[CMP_CAP];
extern size_t cmp_n;
extern int cmp_on;
/* set of distinct constants and of comparison sites */
#define CMP_CONSTS 8192
extern uint64_t cmp_consts[CMP_CONSTS];
extern size_t cmp_nconsts;
extern size_t cmp_nsites, cmp_nsites_eq;
int cmp_take_new(void); /* were new site outcomes seen since the last call */
void cmp_blocks(size_t *hit, size_t *total);
