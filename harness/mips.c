#include "mips.h"
#include <elf.h>
#include <endian.h>
#include <setjmp.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#define HALT 0x00007FF0u

static void hdie(const char *what) {
  fprintf(stderr, "HARNESS: mips: %s\n", what);
  exit(2);
}

static uint64_t get(const mips *m, const uint8_t *p, unsigned n) {
  uint64_t v = 0;
  for (unsigned i = 0; i < n; i++)
    v |= (uint64_t)p[i] << 8 * (m->big ? n - 1 - i : i);
  return v;
}
static void put(const mips *m, uint8_t *p, unsigned n, uint64_t v) {
  for (unsigned i = 0; i < n; i++)
    p[i] = (uint8_t)(v >> 8 * (m->big ? n - 1 - i : i));
}
void mips_put64(mips *m, uint64_t a, uint64_t v) { put(m, m->mem + a, 8, v); }
uint64_t mips_get64(mips *m, uint64_t a) { return get(m, m->mem + a, 8); }
void mips_perm(mips *m, uint64_t a, uint64_t n, unsigned p) {
  if (a + n > GM_SIZE)
    hdie("range");
  memset(m->perm + a, (int)p, n);
}

void mips_load(mips *m, const char *path) {
  FILE *f = fopen(path, "rb");
  if (!f)
    hdie("cannot open the image");
  static uint8_t img[4 << 20];
  size_t n = fread(img, 1, sizeof(img), f);
  fclose(f);
  if (n < 64 || memcmp(img, ELFMAG, 4))
    hdie("not an ELF image");
  memset(m, 0, sizeof(*m));
  m->big = img[EI_DATA] == ELFDATA2MSB;
  m->m64 = img[EI_CLASS] == ELFCLASS64;
  m->strict = true;
  m->mem = calloc(1, GM_SIZE);
  m->perm = calloc(1, GM_SIZE);
  m->ops = calloc(4096, sizeof(*m->ops));
  if (!m->mem || !m->perm || !m->ops)
    hdie("memory");
  if (get(m, img + 18, 2) != EM_MIPS)
    hdie("not a MIPS image");
  uint64_t phoff, phn, phs;
  if (m->m64) {
    m->entry = get(m, img + 24, 8);
    phoff = get(m, img + 32, 8);
    phs = get(m, img + 54, 2), phn = get(m, img + 56, 2);
  } else {
    m->entry = get(m, img + 24, 4);
    phoff = get(m, img + 28, 4);
    phs = get(m, img + 42, 2), phn = get(m, img + 44, 2);
  }
  for (uint64_t i = 0; i < phn; i++) {
    const uint8_t *p = img + phoff + i * phs;
    uint64_t type = get(m, p, 4), off, va, fs, ms, fl;
    if (type != PT_LOAD)
      continue;
    if (m->m64)
      fl = get(m, p + 4, 4), off = get(m, p + 8, 8), va = get(m, p + 16, 8),
      fs = get(m, p + 32, 8), ms = get(m, p + 40, 8);
    else
      off = get(m, p + 4, 4), va = get(m, p + 8, 4), fs = get(m, p + 16, 4),
      ms = get(m, p + 20, 4), fl = get(m, p + 24, 4);
    if (va + ms > (4u << 20) || off + fs > n)
      hdie("segment out of the range");
    memcpy(m->mem + va, img + off, fs);
    mips_perm(m, va, ms, GP_R | (fl & PF_W ? GP_W | GP_PRIV : 0) |
                             (fl & PF_X ? GP_X : 0));
  }
}

/* ---- the memory monitor */
static jmp_buf out;
static void stop(mips *m, int kind, const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  int k = snprintf(m->why, sizeof(m->why), "pc=%#llx: ",
                   (unsigned long long)m->pc);
  vsnprintf(m->why + k, sizeof(m->why) - k, fmt, ap);
  va_end(ap);
  m->kind = kind;
  longjmp(out, 1);
}
static inline uint64_t addr_of(mips *m, uint64_t a) {
  return m->m64 ? a : (uint32_t)a;
}
static inline void touch(mips *m, uint64_t a, unsigned n, unsigned need,
                         bool whole) {
  if (a >= GM_SIZE - 8)
    stop(m, 1, "%s of %u bytes at %#llx: nothing is there",
         need == GP_R ? "load" : "store", n, (unsigned long long)a);
  if (whole && m->strict && (a & (n - 1)))
    stop(m, 1, "misaligned %s of %u bytes at %#llx",
         need == GP_R ? "load" : "store", n, (unsigned long long)a);
  for (unsigned i = 0; i < n; i++) {
    if (!(m->perm[a + i] & need))
      stop(m, 1, "%s of %u bytes at %#llx: byte %u must not be accessed",
           need == GP_R ? "load" : "store", n, (unsigned long long)a, i);
    if (need == GP_R)
      m->perm[a + i] |= GP_SEEN;
    else if (m->perm[a + i] & GP_PRIV)
      m->image_writes++;
  }
  if (need == GP_R)
    m->loads++, m->bytes_loaded += n;
  else
    m->stores++;
}
static inline uint64_t ld(mips *m, uint64_t a, unsigned n) {
  a = addr_of(m, a);
  touch(m, a, n, GP_R, true);
  return get(m, m->mem + a, n);
}
static inline void st(mips *m, uint64_t a, unsigned n, uint64_t v) {
  a = addr_of(m, a);
  touch(m, a, n, GP_W, true);
  put(m, m->mem + a, n, v);
}
/* lwl/lwr/ldl/ldr, swl/swr/sdl/sdr: n is the word, left or right part.
 * Only the bytes which take part are an access. */
static uint64_t part(mips *m, uint64_t a, unsigned n, bool left, bool store,
                     uint64_t reg) {
  a = addr_of(m, a);
  m->partial++;
  unsigned o = (unsigned)(a & (n - 1));
  /* significance index: byte k of the register, 0 = the least */
  if (m->big) {
    if (left) { /* bytes a..end of the word -> high part of the register */
      unsigned cnt = n - o;
      touch(m, a, cnt, store ? GP_W : GP_R, false);
      for (unsigned i = 0; i < cnt; i++) {
        unsigned sh = 8 * (n - 1 - i);
        if (store)
          m->mem[a + i] = (uint8_t)(reg >> sh);
        else
          reg = (reg & ~(0xFFull << sh)) | (uint64_t)m->mem[a + i] << sh;
      }
    } else { /* bytes start..a -> low part */
      unsigned cnt = o + 1;
      uint64_t b = a - o;
      touch(m, b, cnt, store ? GP_W : GP_R, false);
      for (unsigned i = 0; i < cnt; i++) {
        unsigned sh = 8 * (cnt - 1 - i);
        if (store)
          m->mem[b + i] = (uint8_t)(reg >> sh);
        else
          reg = (reg & ~(0xFFull << sh)) | (uint64_t)m->mem[b + i] << sh;
      }
    }
  } else {
    if (left) { /* bytes start..a -> high part */
      unsigned cnt = o + 1;
      uint64_t b = a - o;
      touch(m, b, cnt, store ? GP_W : GP_R, false);
      for (unsigned i = 0; i < cnt; i++) {
        unsigned sh = 8 * (n - cnt + i);
        if (store)
          m->mem[b + i] = (uint8_t)(reg >> sh);
        else
          reg = (reg & ~(0xFFull << sh)) | (uint64_t)m->mem[b + i] << sh;
      }
    } else { /* bytes a..end -> low part */
      unsigned cnt = n - o;
      touch(m, a, cnt, store ? GP_W : GP_R, false);
      for (unsigned i = 0; i < cnt; i++) {
        unsigned sh = 8 * i;
        if (store)
          m->mem[a + i] = (uint8_t)(reg >> sh);
        else
          reg = (reg & ~(0xFFull << sh)) | (uint64_t)m->mem[a + i] << sh;
      }
    }
  }
  return reg;
}

static inline uint64_t sx(uint64_t v) { return (uint64_t)(int64_t)(int32_t)v; }

unsigned mips_distinct_ops(mips *m) {
  unsigned k = 0;
  for (int i = 0; i < 4096; i++)
    k += m->ops[i] != 0;
  return k;
}

static void exec(mips *m, uint64_t max_steps) {
  uint64_t *r = m->r;
  uint64_t npc = m->pc + 4;
  uint64_t nnext;
  for (;;) {
    if (m->pc == HALT)
      return;
    if (++m->steps > max_steps)
      stop(m, 1, "does not terminate: %llu instructions",
           (unsigned long long)m->steps);
    if (m->pc >= GM_SIZE - 4 || (m->pc & 3) || !(m->perm[m->pc] & GP_X))
      stop(m, 1, "jump to a place with no code");
    uint32_t w = (uint32_t)get(m, m->mem + m->pc, 4);
    unsigned op = w >> 26, rs = w >> 21 & 31, rt = w >> 16 & 31,
             rd = w >> 11 & 31, sa = w >> 6 & 31, fn = w & 63;
    int64_t imm = (int16_t)w;
    uint64_t ui = w & 0xFFFF, S = r[rs], T = r[rt], v;
    uint64_t slot = npc; /* next to execute: the delay slot of a jump */
    nnext = npc + 4;
#define BAD stop(m, 2, "unsupported instruction %#x", w)
#define ONLY64                                                                 \
  do                                                                           \
    if (!m->m64)                                                               \
      BAD;                                                                     \
  while (0)
#define BR(cond)                                                               \
  do                                                                           \
    if (cond)                                                                  \
      nnext = m->pc + 4 + ((uint64_t)imm << 2);                                \
  while (0)
#define BRL(cond)                                                              \
  do {                                                                         \
    if (cond)                                                                  \
      nnext = m->pc + 4 + ((uint64_t)imm << 2);                                \
    else                                                                       \
      slot = m->pc + 8, nnext = m->pc + 12;                                    \
  } while (0)
    unsigned id = op << 6;
    switch (op) {
    case 0:
      id = fn << 1 | (fn == 2 || fn == 6 || fn == 0x3a || fn == 0x3e ||
                              fn == 0x16
                          ? (fn == 6 || fn == 0x16 ? sa & 1 : rs & 1)
                          : 0);
      switch (fn) {
      case 0x00: r[rd] = sx(T << sa); break;
      case 0x02: /* srl, rotr */
        v = (uint32_t)T;
        r[rd] = sx(rs & 1 ? (sa ? v >> sa | v << (32 - sa) : v) : v >> sa);
        break;
      case 0x03: r[rd] = sx((uint64_t)((int64_t)(int32_t)T >> sa)); break;
      case 0x04: r[rd] = sx(T << (S & 31)); break;
      case 0x06: { /* srlv, rotrv */
        unsigned n = S & 31;
        v = (uint32_t)T;
        r[rd] = sx(sa & 1 ? (n ? v >> n | v << (32 - n) : v) : v >> n);
        break;
      }
      case 0x07: r[rd] = sx((uint64_t)((int64_t)(int32_t)T >> (S & 31))); break;
      case 0x08: nnext = addr_of(m, S); break;
      case 0x09: r[rd] = sx(m->pc + 8); nnext = addr_of(m, S); break;
      case 0x0a: if (!T) r[rd] = S; break;
      case 0x0b: if (T) r[rd] = S; break;
      case 0x0d: stop(m, 1, "break: a trap of the program or of a sanitizer");
      case 0x0f: break; /* sync */
      case 0x10: r[rd] = m->hi; break;
      case 0x11: m->hi = S; break;
      case 0x12: r[rd] = m->lo; break;
      case 0x13: m->lo = S; break;
      case 0x14: ONLY64; r[rd] = T << (S & 63); break;
      case 0x16: {
        ONLY64;
        unsigned n = S & 63;
        r[rd] = sa & 1 ? (n ? T >> n | T << (64 - n) : T) : T >> n;
        break;
      }
      case 0x17: ONLY64; r[rd] = (uint64_t)((int64_t)T >> (S & 63)); break;
      case 0x18: {
        uint64_t p = (uint64_t)((int64_t)(int32_t)S * (int32_t)T);
        m->lo = sx(p), m->hi = sx(p >> 32);
        break;
      }
      case 0x19: {
        uint64_t p = (uint64_t)(uint32_t)S * (uint32_t)T;
        m->lo = sx(p), m->hi = sx(p >> 32);
        break;
      }
      case 0x1a:
        if ((int32_t)T && !((int32_t)S == INT32_MIN && (int32_t)T == -1)) {
          m->lo = sx((uint64_t)((int32_t)S / (int32_t)T));
          m->hi = sx((uint64_t)((int32_t)S % (int32_t)T));
        }
        break;
      case 0x1b:
        if ((uint32_t)T) {
          m->lo = sx((uint32_t)S / (uint32_t)T);
          m->hi = sx((uint32_t)S % (uint32_t)T);
        }
        break;
      case 0x1c: {
        ONLY64;
        __int128 p = (__int128)(int64_t)S * (int64_t)T;
        m->lo = (uint64_t)p, m->hi = (uint64_t)(p >> 64);
        break;
      }
      case 0x1d: {
        ONLY64;
        unsigned __int128 p = (unsigned __int128)S * T;
        m->lo = (uint64_t)p, m->hi = (uint64_t)(p >> 64);
        break;
      }
      case 0x1e:
        ONLY64;
        if (T && !((int64_t)S == INT64_MIN && (int64_t)T == -1))
          m->lo = (uint64_t)((int64_t)S / (int64_t)T),
          m->hi = (uint64_t)((int64_t)S % (int64_t)T);
        break;
      case 0x1f:
        ONLY64;
        if (T)
          m->lo = S / T, m->hi = S % T;
        break;
      case 0x20: /* add, sub: overflow traps are not emitted by compilers */
      case 0x22: BAD; break;
      case 0x21: r[rd] = sx(S + T); break;
      case 0x23: r[rd] = sx(S - T); break;
      case 0x24: r[rd] = S & T; break;
      case 0x25: r[rd] = S | T; break;
      case 0x26: r[rd] = S ^ T; break;
      case 0x27: r[rd] = ~(S | T); break;
      case 0x2a: r[rd] = (int64_t)S < (int64_t)T; break;
      case 0x2b: r[rd] = S < T; break;
      case 0x2d: ONLY64; r[rd] = S + T; break;
      case 0x2f: ONLY64; r[rd] = S - T; break;
      case 0x34: /* teq */
        if (S == T)
          stop(m, 1, "teq: division by zero or a trap of a sanitizer");
        break;
      case 0x36: /* tne */
        if (S != T)
          stop(m, 1, "tne: a trap");
        break;
      case 0x38: ONLY64; r[rd] = T << sa; break;
      case 0x3a:
        ONLY64;
        r[rd] = rs & 1 ? (sa ? T >> sa | T << (64 - sa) : T) : T >> sa;
        break;
      case 0x3b: ONLY64; r[rd] = (uint64_t)((int64_t)T >> sa); break;
      case 0x3c: ONLY64; r[rd] = T << (sa + 32); break;
      case 0x3e: {
        ONLY64;
        unsigned n = sa + 32;
        r[rd] = rs & 1 ? (T >> n | T << (64 - n)) : T >> n;
        break;
      }
      case 0x3f: ONLY64; r[rd] = (uint64_t)((int64_t)T >> (sa + 32)); break;
      default: BAD;
      }
      break;
    case 1:
      id = op << 6 | rt;
      switch (rt) {
      case 0: BR((int64_t)S < 0); break;
      case 1: BR((int64_t)S >= 0); break;
      case 2: BRL((int64_t)S < 0); break;
      case 3: BRL((int64_t)S >= 0); break;
      case 0x10: r[31] = m->pc + 8; BR((int64_t)S < 0); break;
      case 0x11: r[31] = m->pc + 8; BR((int64_t)S >= 0); break;
      case 0x1f: break; /* synci */
      default: BAD;
      }
      break;
    case 3: r[31] = m->pc + 8; /* fall through */
    case 2: nnext = (npc & ~0x0FFFFFFFull) | (w & 0x3FFFFFF) << 2; break;
    case 4: BR(S == T); break;
    case 5: BR(S != T); break;
    case 6: BR((int64_t)S <= 0); break;
    case 7: BR((int64_t)S > 0); break;
    case 0x14: BRL(S == T); break;
    case 0x15: BRL(S != T); break;
    case 0x16: BRL((int64_t)S <= 0); break;
    case 0x17: BRL((int64_t)S > 0); break;
    case 8: BAD; break;
    case 9: r[rt] = sx(S + imm); break;
    case 10: r[rt] = (int64_t)S < imm; break;
    case 11: r[rt] = S < (uint64_t)imm; break;
    case 12: r[rt] = S & ui; break;
    case 13: r[rt] = S | ui; break;
    case 14: r[rt] = S ^ ui; break;
    case 15: r[rt] = sx(ui << 16); break;
    case 0x19: ONLY64; r[rt] = S + imm; break;
    case 0x1a: ONLY64; r[rt] = part(m, S + imm, 8, true, false, T); break;
    case 0x1b: ONLY64; r[rt] = part(m, S + imm, 8, false, false, T); break;
    case 0x1c: /* special2 */
      id = op << 6 | fn;
      switch (fn) {
      case 0x00: { /* madd */
        uint64_t p = ((m->hi << 32) | (uint32_t)m->lo) +
                     (uint64_t)((int64_t)(int32_t)S * (int32_t)T);
        m->lo = sx(p), m->hi = sx(p >> 32);
        break;
      }
      case 0x01: {
        uint64_t p = ((m->hi << 32) | (uint32_t)m->lo) +
                     (uint64_t)(uint32_t)S * (uint32_t)T;
        m->lo = sx(p), m->hi = sx(p >> 32);
        break;
      }
      case 0x02: r[rd] = sx((uint64_t)((int64_t)(int32_t)S * (int32_t)T)); break;
      case 0x04: {
        uint64_t p = ((m->hi << 32) | (uint32_t)m->lo) -
                     (uint64_t)((int64_t)(int32_t)S * (int32_t)T);
        m->lo = sx(p), m->hi = sx(p >> 32);
        break;
      }
      case 0x05: {
        uint64_t p = ((m->hi << 32) | (uint32_t)m->lo) -
                     (uint64_t)(uint32_t)S * (uint32_t)T;
        m->lo = sx(p), m->hi = sx(p >> 32);
        break;
      }
      case 0x20: r[rd] = (uint32_t)S ? (unsigned)__builtin_clz((uint32_t)S) : 32; break;
      case 0x21: r[rd] = ~(uint32_t)S ? (unsigned)__builtin_clz(~(uint32_t)S) : 32; break;
      case 0x24: ONLY64; r[rd] = S ? (unsigned)__builtin_clzll(S) : 64; break;
      case 0x25: ONLY64; r[rd] = ~S ? (unsigned)__builtin_clzll(~S) : 64; break;
      default: BAD;
      }
      break;
    case 0x1f: /* special3 */
      id = op << 6 | fn;
      switch (fn) {
      case 0x00: /* ext */
        r[rt] = sx((uint32_t)S >> sa & (rd == 31 ? 0xFFFFFFFFu
                                                 : (2u << rd) - 1));
        break;
      case 0x01: ONLY64; /* dextm */
        r[rt] = S >> sa & (rd + 32 == 63 ? ~0ull : (2ull << (rd + 32)) - 1);
        break;
      case 0x02: ONLY64; /* dextu */
        r[rt] = S >> (sa + 32) & ((2ull << rd) - 1);
        break;
      case 0x03: ONLY64; /* dext */
        r[rt] = S >> sa & ((2ull << rd) - 1);
        break;
      case 0x04: { /* ins: msb=rd, lsb=sa */
        unsigned n = rd - sa + 1;
        uint32_t mask = (n == 32 ? 0xFFFFFFFFu : (1u << n) - 1) << sa;
        r[rt] = sx(((uint32_t)T & ~mask) | ((uint32_t)S << sa & mask));
        break;
      }
      case 0x05:   /* dinsm */
      case 0x06:   /* dinsu */
      case 0x07: { /* dins */
        ONLY64;
        unsigned lsb = sa + (fn == 6 ? 32 : 0), msb = rd + (fn == 7 ? 0 : 32);
        unsigned n = msb - lsb + 1;
        uint64_t mask = (n == 64 ? ~0ull : (1ull << n) - 1) << lsb;
        r[rt] = (T & ~mask) | (S << lsb & mask);
        break;
      }
      case 0x20: /* bshfl */
        id |= 0;
        switch (sa) {
        case 0x02: { /* wsbh */
          uint32_t x = (uint32_t)T;
          r[rd] = sx((x & 0x00FF00FF) << 8 | (x >> 8 & 0x00FF00FF));
          break;
        }
        case 0x10: r[rd] = (uint64_t)(int64_t)(int8_t)T; break;
        case 0x18: r[rd] = (uint64_t)(int64_t)(int16_t)T; break;
        default: BAD;
        }
        break;
      case 0x24: /* dbshfl */
        ONLY64;
        switch (sa) {
        case 0x02:
          r[rd] = (T & 0x00FF00FF00FF00FFull) << 8 |
                  (T >> 8 & 0x00FF00FF00FF00FFull);
          break;
        case 0x05:
          v = (T & 0x0000FFFF0000FFFFull) << 16 |
              (T >> 16 & 0x0000FFFF0000FFFFull);
          r[rd] = v << 32 | v >> 32;
          break;
        default: BAD;
        }
        break;
      default: BAD;
      }
      break;
    case 0x20: r[rt] = (uint64_t)(int64_t)(int8_t)ld(m, S + imm, 1); break;
    case 0x21: r[rt] = (uint64_t)(int64_t)(int16_t)ld(m, S + imm, 2); break;
    case 0x22: r[rt] = sx(part(m, S + imm, 4, true, false, (uint32_t)T)); break;
    case 0x23: r[rt] = sx(ld(m, S + imm, 4)); break;
    case 0x24: r[rt] = ld(m, S + imm, 1); break;
    case 0x25: r[rt] = ld(m, S + imm, 2); break;
    case 0x26: r[rt] = sx(part(m, S + imm, 4, false, false, (uint32_t)T)); break;
    case 0x27: ONLY64; r[rt] = ld(m, S + imm, 4); break;
    case 0x28: st(m, S + imm, 1, T); break;
    case 0x29: st(m, S + imm, 2, T); break;
    case 0x2a: part(m, S + imm, 4, true, true, (uint32_t)T); break;
    case 0x2b: st(m, S + imm, 4, T); break;
    case 0x2c: ONLY64; part(m, S + imm, 8, true, true, T); break;
    case 0x2d: ONLY64; part(m, S + imm, 8, false, true, T); break;
    case 0x2e: part(m, S + imm, 4, false, true, (uint32_t)T); break;
    case 0x33: break; /* pref: no access */
    case 0x37: ONLY64; r[rt] = ld(m, S + imm, 8); break;
    case 0x3f: ONLY64; st(m, S + imm, 8, T); break;
    default: BAD;
    }
    m->ops[id & 4095]++;
    r[0] = 0;
    m->pc = slot;
    npc = nnext;
  }
}

int mips_call(mips *m, uint64_t a0, uint64_t sp, uint64_t max_steps) {
  memset(m->r, 0xA5, sizeof(m->r)); /* hostile: no register is clean */
  for (int i = 0; i < 32; i++)
    m->r[i] = sx(0xA5A50000u + (unsigned)i);
  m->hi = m->lo = 0x5A5A;
  m->r[0] = 0;
  m->r[4] = a0;
  m->r[25] = m->entry;
  m->r[29] = sp;
  m->r[31] = HALT;
  m->pc = m->entry;
  m->steps = 0;
  m->kind = 0;
  m->why[0] = 0;
  if (setjmp(out))
    return m->kind;
  exec(m, max_steps);
  if (m->r[29] != sp)
    stop(m, 2, "the stack pointer was not restored");
  return 0;
}
