/* In-process single-stepping (x86 trap flag): a callback sees the machine
 * state before every instruction of the code between step_begin() and
 * step_end(), and may emulate instructions. */
#pragma once
#include <signal.h>
#include <stdint.h>
#include <string.h>
#include <ucontext.h>
#ifdef __x86_64__
#define UC_PC(u) ((u)->uc_mcontext.gregs[REG_RIP])
#define UC_SP(u) ((u)->uc_mcontext.gregs[REG_RSP])
#define UC_AX(u) ((u)->uc_mcontext.gregs[REG_RAX])
#define UC_BX(u) ((u)->uc_mcontext.gregs[REG_RBX])
#define UC_CX(u) ((u)->uc_mcontext.gregs[REG_RCX])
#define UC_DX(u) ((u)->uc_mcontext.gregs[REG_RDX])
#else
#define UC_PC(u) ((u)->uc_mcontext.gregs[REG_EIP])
#define UC_SP(u) ((u)->uc_mcontext.gregs[REG_ESP])
#define UC_AX(u) ((u)->uc_mcontext.gregs[REG_EAX])
#define UC_BX(u) ((u)->uc_mcontext.gregs[REG_EBX])
#define UC_CX(u) ((u)->uc_mcontext.gregs[REG_ECX])
#define UC_DX(u) ((u)->uc_mcontext.gregs[REG_EDX])
#endif
#define UC_FL(u) ((u)->uc_mcontext.gregs[REG_EFL])

typedef void (*step_cb)(ucontext_t *u);
static step_cb step_fn;
static volatile sig_atomic_t step_armed;
static unsigned char step_stack[1 << 16] __attribute__((aligned(64)));

static void step_handler(int sig, siginfo_t *si, void *ctx) {
  (void)sig;
  (void)si;
  ucontext_t *u = ctx;
  if (!step_armed) {
    UC_FL(u) &= ~0x100;
    return;
  }
  step_fn(u);
}

static void step_install(step_cb fn, int altstack) {
  step_fn = fn;
  struct sigaction sa;
  memset(&sa, 0, sizeof(sa));
  sa.sa_sigaction = step_handler;
  sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  if (altstack) {
    stack_t ss;
    memset(&ss, 0, sizeof(ss));
    ss.ss_sp = step_stack;
    ss.ss_size = sizeof(step_stack);
    sigaltstack(&ss, 0);
    sa.sa_flags |= SA_ONSTACK;
  }
  sigaction(SIGTRAP, &sa, 0);
}

static inline __attribute__((always_inline)) void step_begin(void) {
  step_armed = 1;
#ifdef __x86_64__
  __asm volatile("lea -128(%%rsp),%%rsp; pushfq; orl $0x100,(%%rsp); popfq; "
                 "lea 128(%%rsp),%%rsp" ::: "memory", "cc");
#else
  __asm volatile("pushfl; orl $0x100,(%%esp); popfl" ::: "memory", "cc");
#endif
}
static inline __attribute__((always_inline)) void step_end(void) {
#ifdef __x86_64__
  __asm volatile("lea -128(%%rsp),%%rsp; pushfq; andl $~0x100,(%%rsp); popfq; "
                 "lea 128(%%rsp),%%rsp" ::: "memory", "cc");
#else
  __asm volatile("pushfl; andl $~0x100,(%%esp); popfl" ::: "memory", "cc");
#endif
  step_armed = 0;
}

/* ---- which CPU feature does the instruction at p need? 0: baseline */
enum {
  F_SSE3 = 1, F_SSSE3 = 2, F_SSE41 = 4, F_SSE42 = 8, F_AES = 16,
  F_CLMUL = 32, F_AVX = 64, F_AVX2 = 128, F_BMI = 256, F_FMA = 512,
  F_MOVBE = 1024, F_POPCNT = 2048, F_LZCNT = 4096, F_ADX = 8192,
  F_SHA = 16384, F_AVX512 = 32768, F_XSAVE = 65536, F_OTHER = 131072
};
static const char *const f_names[] = {
    "SSE3", "SSSE3", "SSE4.1", "SSE4.2", "AES",  "PCLMUL", "AVX",
    "AVX2", "BMI",   "FMA",    "MOVBE",  "POPCNT", "LZCNT", "ADX",
    "SHA",  "AVX512", "XSAVE", "other"};

static unsigned insn_feature(const uint8_t *p, int is64) {
  int p66 = 0, pf2 = 0, pf3 = 0;
  const uint8_t *s = p;
  for (;; p++) {
    if (*p == 0x66)
      p66 = 1;
    else if (*p == 0xF2)
      pf2 = 1, pf3 = 0;
    else if (*p == 0xF3)
      pf3 = 1, pf2 = 0;
    else if (*p == 0x2E || *p == 0x36 || *p == 0x3E || *p == 0x26 ||
             *p == 0x64 || *p == 0x65 || *p == 0x67 || *p == 0xF0)
      ;
    else
      break;
    if (p - s > 13)
      return 0;
  }
  if (is64 && (*p & 0xF0) == 0x40)
    p++;
  if (*p == 0x62 && (is64 || (p[1] & 0xC0) == 0xC0))
    return F_AVX512;
  if ((*p == 0xC4 || *p == 0xC5) && (is64 || (p[1] & 0xC0) == 0xC0)) {
    unsigned map = 1, l, pp, op, modrm;
    if (*p == 0xC4)
      map = p[1] & 31, l = p[2] >> 2 & 1, pp = p[2] & 3, op = p[3],
      modrm = p[4];
    else
      l = p[1] >> 2 & 1, pp = p[1] & 3, op = p[2], modrm = p[3];
    if (map == 1) {
      if (l && pp == 1 &&
          ((op >= 0x60 && op <= 0x6D) || (op >= 0x70 && op <= 0x76) ||
           (op >= 0xD1 && op <= 0xD5) || (op >= 0xD7 && op <= 0xE5) ||
           (op >= 0xE8 && op <= 0xEF) || (op >= 0xF1 && op <= 0xFE)))
        return F_AVX | F_AVX2;
      if (l && op == 0x70)
        return F_AVX | F_AVX2;
      return F_AVX;
    }
    if (map == 2) {
      if (op == 0xF2 || op == 0xF3 || op == 0xF5 || op == 0xF6 || op == 0xF7)
        return F_BMI;
      if (op >= 0xDB && op <= 0xDF)
        return F_AVX | F_AES | (l ? F_OTHER : 0);
      if ((op >= 0x96 && op <= 0x9F) || (op >= 0xA6 && op <= 0xAF) ||
          (op >= 0xB6 && op <= 0xBF))
        return F_AVX | F_FMA;
      if (op == 0x16 || op == 0x36 || (op >= 0x45 && op <= 0x47) ||
          (op >= 0x58 && op <= 0x5A) || op == 0x78 || op == 0x79 ||
          op == 0x8C || op == 0x8E || (op >= 0x90 && op <= 0x93))
        return F_AVX | F_AVX2;
      if ((op == 0x18 || op == 0x19) && (modrm >> 6) == 3)
        return F_AVX | F_AVX2;
      if (l && (op <= 0x0B || (op >= 0x1C && op <= 0x1E) ||
                (op >= 0x20 && op <= 0x2B) || (op >= 0x30 && op <= 0x41)))
        return F_AVX | F_AVX2;
      return F_AVX;
    }
    if (map == 3) {
      if (op == 0xF0)
        return F_BMI;
      if (op == 0x44)
        return F_AVX | F_CLMUL;
      if (op == 0xDF)
        return F_AVX | F_AES;
      if (op <= 2 || op == 0x38 || op == 0x39 || op == 0x46)
        return F_AVX | F_AVX2;
      if (l && (op == 0x0E || op == 0x0F || op == 0x42 || op == 0x4C))
        return F_AVX | F_AVX2;
      return F_AVX;
    }
    return F_AVX | F_OTHER;
  }
  if (*p != 0x0F)
    return 0;
  p++;
  if (*p == 0x38) {
    unsigned op = p[1];
    if (op >= 0xDB && op <= 0xDF)
      return F_AES;
    if (op == 0xF0 || op == 0xF1)
      return pf2 ? F_SSE42 : F_MOVBE;
    if (op == 0xF6)
      return F_ADX;
    if (op >= 0xC8 && op <= 0xCD)
      return F_SHA;
    if (op == 0x37)
      return F_SSE42;
    if (op <= 0x0B || (op >= 0x1C && op <= 0x1E))
      return F_SSSE3;
    if (op >= 0x10 && op <= 0x41)
      return F_SSE41;
    return F_OTHER;
  }
  if (*p == 0x3A) {
    unsigned op = p[1];
    if (op == 0x0F)
      return F_SSSE3;
    if (op == 0xDF)
      return F_AES;
    if (op == 0x44)
      return F_CLMUL;
    if (op >= 0x60 && op <= 0x63)
      return F_SSE42;
    if (op == 0xCC)
      return F_SHA;
    return F_SSE41;
  }
  if (*p == 0xB8 && pf3)
    return F_POPCNT;
  if (*p == 0xBD && pf3)
    return F_LZCNT;
  if (*p == 0x01 && p[1] == 0xD0)
    return F_XSAVE;
  if (*p == 0xF0 && pf2)
    return F_SSE3;
  if (*p == 0xC7 && (p[1] >> 6) == 3 && (p[1] >> 3 & 7) >= 6)
    return F_OTHER; /* rdrand, rdseed */
  (void)p66;
  return 0;
}
