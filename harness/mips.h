/* An interpreter of the integer instructions of MIPS32/MIPS64 (release 2),
 * either byte order, with a byte-exact memory monitor. It executes the
 * machine code which a cross compiler made of the library's sources, so
 * the big-endian and strict-alignment paths run for real. */
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>

#define GM_SIZE (8u << 20)
enum { GP_R = 1, GP_W = 2, GP_X = 4, GP_SEEN = 8, GP_PRIV = 16 };

typedef struct {
  bool big, m64;      /* byte order, 64-bit machine */
  bool strict;        /* a misaligned access is a violation */
  uint8_t *mem, *perm;
  uint64_t entry;
  uint64_t r[32], hi, lo, pc;
  uint32_t *ops;      /* executed counts by opcode slot */
  uint64_t steps, loads, stores, bytes_loaded, partial;
  uint64_t image_writes;
  char why[200];      /* after a failed run */
  int kind;           /* 0 ok, 1 violation of the guest, 2 the interpreter */
} mips;

void mips_load(mips *, const char *elf);
/* calls the entry with a0; returns 0 or m->kind */
int mips_call(mips *, uint64_t a0, uint64_t sp, uint64_t max_steps);
uint64_t mips_sym(mips *, const char *elf, const char *name);
void mips_put64(mips *, uint64_t addr, uint64_t v);
uint64_t mips_get64(mips *, uint64_t addr);
void mips_perm(mips *, uint64_t addr, uint64_t n, unsigned perm);
unsigned mips_distinct_ops(mips *);
