/* Resource monitors.
 *   drv_res <phase> <amount> <shard> <shards> <scale%>
 * phases: step     executed instructions, stack depth, system-call
 *                  instructions, seen before every instruction
 *         stack    calls on a small painted stack that ends at a guard page
 *         fp       MXCSR, x87 control/tag/TOP, direction flag around calls
 *         syscall  calls under a seccomp filter, allocator counters
 *         work     (WITH_COV) executed basic blocks of every call
 */
#include "common.h"
#include "step.h"
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <setjmp.h>
#include <stddef.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>

static unsigned shard, shards, scale;
static uint64_t n_calls, n_insn;

/* ---- the allocator: counts while armed */
static volatile int heap_armed;
static volatile unsigned heap_calls;
static const char *volatile heap_last;
#ifndef WITH_COV
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
void __libc_free(void *);
static inline void heap(const char *n) {
  if (heap_armed)
    heap_calls++, heap_last = n;
}
void *malloc(size_t n) { heap("malloc"); return __libc_malloc(n); }
void *calloc(size_t a, size_t b) { heap("calloc"); return __libc_calloc(a, b); }
void *realloc(void *p, size_t n) {
  heap("realloc");
  return __libc_realloc(p, n);
}
void *memalign(size_t a, size_t n) {
  heap("memalign");
  return __libc_memalign(a, n);
}
void *aligned_alloc(size_t a, size_t n) {
  heap("aligned_alloc");
  return __libc_memalign(a, n);
}
int posix_memalign(void **r, size_t a, size_t n) {
  heap("posix_memalign");
  *r = __libc_memalign(a, n);
  return *r ? 0 : ENOMEM;
}
void free(void *p) { heap("free"); __libc_free(p); }
#endif
static void heap_check(const char *name) {
  if (heap_calls) {
    char key[100];
    snprintf(key, sizeof(key), "heap:%s", name);
    fail(key, "%u allocator calls (%s), len=%" PRIu64 " seed=%#" PRIx64,
         heap_calls, heap_last, REC->len, REC->seed);
    heap_calls = 0;
  }
}

/* ---- what is called: the hash functions, then the rest of the API */
enum { X_INIT = 100, X_UPDATE, X_FINAL64, X_FINAL128, X_RESOLVE, X_END };
static const char *name_of(int id) {
  static const char *const xn[] = {"t1ha2_init", "t1ha2_update",
                                   "t1ha2_final", "t1ha2_final128",
                                   "t1ha0_resolve"};
  return id >= X_INIT ? xn[id - X_INIT] : g_targets[id].name;
}
static bool can(int id) {
  if (id >= X_INIT)
    return id == X_RESOLVE ? g_runtime_select && g_t0_present : g_t2_present;
  return g_targets[id].present && cpu_can(id);
}
static uint8_t *CTX;
static volatile uint64_t sink;
static uint64_t HI;
static uint64_t call(int id, const void *p, size_t n, uint64_t seed) {
  switch (id) {
  case X_INIT:
    g_init(CTX, seed, rel_seed(seed));
    return 0;
  case X_UPDATE:
    g_update(CTX, p, n);
    return 0;
  case X_FINAL64:
    return g_final(CTX, NULL);
  case X_FINAL128:
    return g_final(CTX, &HI);
  case X_RESOLVE:
    return (uintptr_t)g_resolve();
  }
  return g_call(id, p, n, seed, rel_seed(seed), &HI);
}
static void ctx_state(size_t partial) {
  static uint8_t z[64];
  if (g_t2_present) {
    g_init(CTX, 1, 2);
    g_update(CTX, z, partial);
  }
}

/* ---- step */
static uint64_t st_n, st_limit;
static uintptr_t st_sp, st_sp0, st_pc_sys;
static unsigned st_fault;
static void on_step(ucontext_t *u) {
  uintptr_t sp = (uintptr_t)UC_SP(u);
  const uint8_t *pc = (const uint8_t *)UC_PC(u);
  st_n++;
  if (sp < st_sp)
    st_sp = sp;
  if (!st_sp0)
    st_sp0 = sp;
  if ((pc[0] == 0x0F && (pc[1] == 0x05 || pc[1] == 0x34)) ||
      (pc[0] == 0xCD && pc[1] == 0x80)) {
    st_fault = 1;
    st_pc_sys = (uintptr_t)pc;
  }
  if (st_n > st_limit) { /* stop counting, run at full speed */
    step_armed = 0;
    UC_FL(u) &= ~0x100;
  }
}
static __attribute__((noinline)) uint64_t stepped(int id, const void *p,
                                                  size_t n, uint64_t seed,
                                                  uint64_t limit) {
  st_n = 0;
  st_sp = ~(uintptr_t)0;
  st_sp0 = 0;
  st_fault = 0;
  st_limit = limit;
  rec_case(name_of(id), p, n, seed, 0);
  heap_calls = 0;
  heap_armed = 1;
  step_begin();
  uint64_t r = call(id, p, n, seed);
  step_end();
  heap_armed = 0;
  sink += r;
  n_calls++;
  n_insn += st_n;
  heap_check(name_of(id));
  if (st_fault) {
    char key[100];
    snprintf(key, sizeof(key), "syscall:%s", name_of(id));
    fail(key, "a system-call instruction is executed, len=%zu seed=%#" PRIx64,
         n, seed);
  }
  return st_n;
}
/* the contract: instructions <= A + B * bytes. cpuid is one instruction */
static double LA = 400, LB = 2.5;
static uint64_t limit_of(int id, size_t n) {
  double a = LA, b = LB;
  if (id == G_1_BE || id == G_0_32BE)
    b *= 1.4;
  if (id >= X_INIT && id != X_UPDATE)
    b = 0;
  return (uint64_t)((a + b * (double)n) * scale / 100);
}
static uint64_t max_ratio, max_small, max_sp;
static void judge_step(int id, const uint8_t *p, size_t n, uint64_t seed,
                       const char *what) {
  uint64_t lim = limit_of(id, n), k = stepped(id, p, n, seed, lim * 3 + 1000);
  uintptr_t depth = st_sp0 - st_sp;
  if (depth > max_sp)
    max_sp = depth;
  if (getenv("RES_SHOW") && (n == 0 || n == 31 || n == 300 || n >= 4096))
    printf("NOTE %s len=%zu insn=%" PRIu64 " sp=%zu\n", name_of(id), n, k,
           (size_t)depth);
  if (k * 100 / lim > max_ratio)
    max_ratio = k * 100 / lim;
  if (k > lim) {
    char key[100];
    snprintf(key, sizeof(key), "instructions:%s", name_of(id));
    fail(key, "%" PRIu64 "%s instructions for %zu bytes (limit %" PRIu64
         "), %s, address %p, seed=%#" PRIx64 ", data %s", k,
         k > lim * 3 + 1000 ? "+" : "", n, lim, what, (void *)p, seed,
         hexs(p, n));
  }
}
static void ph_step(uint64_t amount) {
  enum { N = 70000 };
  uint8_t *raw = aligned_alloc(PG, N + 2 * PG);
  step_install(on_step, 1);
  static size_t lens[600];
  size_t nl = 0;
  for (size_t i = 0; i <= 300; i++)
    lens[nl++] = i;
  static const size_t more[] = {384, 511, 512, 513, 640, 1023, 1024, 1025,
                                2048, 4095, 4096, 4097, 8191};
  for (size_t i = 0; i < sizeof(more) / sizeof(*more); i++)
    lens[nl++] = more[i];
  /* amount: percent of a pass over the grid */
  for (uint64_t rep = 0; rep * 100 < amount && !enough(); rep++)
    for (size_t li = 0; li < nl && !enough(); li++) {
      size_t n = lens[li];
      if (li % shards != shard)
        continue;
      for (int id = 0; id < X_END; id++) {
        if (!can(id) || (id >= G_MAX && id < X_INIT))
          continue;
        if (amount < 100 && rndn(100) >= amount)
          continue;
        if (n > 300 && rndn(3))
          continue;
        if (id > X_UPDATE && n > 40)
          continue;
        /* one placement: the count may depend on the alignment and on the
         * distance to the end of the page, not on data and seeds */
        unsigned off = (unsigned)(rndn(3) ? rndn(64) : PG - 1 - rndn(n + 40) % PG);
        uint8_t *p = raw + off;
        size_t part = rndn(32);
        uint64_t lo = ~(uint64_t)0, hi = 0, lo_seed = 0, hi_seed = 0;
        for (unsigned v = 0; v < 3 && !enough(); v++) {
          unsigned kind = v == 0 ? 11 : (unsigned)rndn(14);
          pattern(p, n, kind);
          uint64_t seed = v == 0 ? rnd() : any_seed();
          ctx_state(part);
          judge_step(id, p, n, seed, "grid");
          if (st_n < lo)
            lo = st_n, lo_seed = seed;
          if (st_n > hi)
            hi = st_n, hi_seed = seed;
        }
        if (hi > lo + lo / 4 + 100) {
          char key[100];
          snprintf(key, sizeof(key), "data-dependent:%s", name_of(id));
          fail(key, "%" PRIu64 "..%" PRIu64 " instructions for the same %zu "
               "bytes' place, seeds %#" PRIx64 ", %#" PRIx64, lo, hi, n,
               lo_seed, hi_seed);
        }
      }
    }
  /* updates: byte by byte, and other small pieces, into one context */
  if (g_t2_present)
    for (uint64_t rep = 0; rep * 100 < 2 * amount && !enough(); rep++) {
      ctx_state(rndn(32));
      unsigned mode = (unsigned)rndn(3);
      for (unsigned u = 0; u < 150 && !enough(); u++) {
        size_t n = mode == 0 ? 1 : mode == 1 ? rndn(40) : rndn(120);
        judge_step(X_UPDATE, raw + rndn(64), n, 0, "many updates");
      }
      judge_step(rndn(2) ? X_FINAL64 : X_FINAL128, raw, 0, 0, "many updates");
    }
  stat_out("instructions_counted", n_insn);
  stat_out("max_percent_of_limit", max_ratio);
  stat_out("max_stack_bytes_stepped", max_sp);
}

/* ---- stack */
#define STK (256 * 1024)
static uint8_t *stk_lo, *stk_hi; /* above a guard page */
static struct {
  int id;
  const uint8_t *p;
  size_t n;
  uint64_t seed, ret;
} sa;
static ucontext_t uc_main, uc_call;
static void stk_entry(void) {
  sa.ret = call(sa.id, sa.p, sa.n, sa.seed);
  setcontext(&uc_main);
}
static size_t use_painted = 0;
static size_t stack_use(int id, const uint8_t *p, size_t n, uint64_t seed,
                        size_t limit) {
  uint8_t *low = stk_hi - limit; /* painted part; below is the guard */
  for (uint8_t *q = low; q < stk_hi; q += 8)
    *(uint64_t *)q = 0x5AC3A55A3C17E9B6ull;
  getcontext(&uc_call);
  uc_call.uc_stack.ss_sp = low;
  uc_call.uc_stack.ss_size = limit;
  uc_call.uc_link = 0;
  sa.id = id, sa.p = p, sa.n = n, sa.seed = seed;
  makecontext(&uc_call, stk_entry, 0);
  rec_case(name_of(id), p, n, seed, 0);
  heap_calls = 0;
  heap_armed = 1;
  swapcontext(&uc_main, &uc_call);
  heap_armed = 0;
  n_calls++;
  heap_check(name_of(id));
  sink += sa.ret;
  uint8_t *q = low;
  while (q < stk_hi && *(uint64_t *)q == 0x5AC3A55A3C17E9B6ull)
    q += 8;
  use_painted++;
  return (size_t)(stk_hi - q);
}
static size_t big_len(size_t max) {
  switch (rndn(6)) {
  case 0:
    return rndn(max);
  case 1:
    return rndn(65536 < max ? 65536 : max);
  case 2:
    return (size_t)val() % max;
  case 3:
    return ((size_t)1 << rndn(23)) + rndn(64) - 32 + 32;
  default:
    return rndn(4096);
  }
}
static void stk_new(size_t size) {
  uint8_t *m = mmap(0, 64 * PG + STK, PROT_READ | PROT_WRITE,
                    MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (m == MAP_FAILED || size > STK)
    die("stack");
  stk_hi = m + 64 * PG + STK;
  stk_lo = stk_hi - size;
  if (mprotect(m, (size_t)(stk_lo - m), PROT_NONE))
    die("guard");
}
static void ph_stack(uint64_t amount) {
  size_t limit = 8192 * (size_t)scale / 100 / PG * PG;
  size_t maxn = (size_t)8 << 20;
  uint8_t *raw = aligned_alloc(PG, maxn + 2 * PG);
  rnd_fill(raw, maxn + 2 * PG);
  stk_new(limit);
  size_t small[X_END] = {0}, large[X_END] = {0}, at[X_END] = {0};
  for (int id = 0; id < X_END && !enough(); id++) {
    if ((id >= G_MAX && id < X_INIT) || !can(id))
      continue;
    for (size_t n = 0; n <= 512; n++)
      for (unsigned k = 0; k < 3; k++) {
        ctx_state(rndn(32));
        size_t u = stack_use(id, raw + rndn(PG), n, any_seed(), limit);
        if (u > small[id])
          small[id] = u;
      }
    for (uint64_t i = 0; i < amount; i++) {
      size_t n = big_len(maxn);
      uint64_t seed = any_seed();
      ctx_state(rndn(32));
      if (rndn(8) == 0) {
        size_t m = rndn(64);
        pattern(raw, m, (unsigned)rndn(14));
      }
      size_t u = stack_use(id, raw + (rndn(2) ? 0 : rndn(PG)), n, seed, limit);
      if (u > large[id])
        large[id] = u, at[id] = n;
    }
    if (getenv("RES_SHOW"))
      printf("NOTE %s stack %zu / %zu (len %zu)\n", name_of(id), small[id],
             large[id], at[id]);
    /* glibc's copying of large blocks may use another path */
    if (large[id] > small[id] + 256) {
      char key[100];
      snprintf(key, sizeof(key), "stack:%s", name_of(id));
      fail(key, "uses %zu bytes of stack for len=%zu, at most %zu up to 512 "
           "bytes", large[id], at[id], small[id]);
    }
    size_t m = large[id] > small[id] ? large[id] : small[id];
    if (m > max_sp)
      max_sp = m;
    if (m > 4096 * (size_t)scale / 100) {
      char key[100];
      snprintf(key, sizeof(key), "stack:%s", name_of(id));
      fail(key, "uses %zu bytes of stack", m);
    }
  }
  stat_out("painted_stack_calls", use_painted);
  stat_out("max_stack_bytes", max_sp);
}

/* ---- floating point and flags */
static uint64_t n_fp;
typedef struct {
  uint16_t cw, r0, sw, r1, tw, r2;
  uint32_t rest[4];
} x87env;
static void ph_fp(uint64_t amount) {
  enum { N = 4096 };
  uint8_t *raw = aligned_alloc(PG, N + 2 * PG);
  rnd_fill(raw, N + 2 * PG);
  bool sse = true;
  for (uint64_t i = 0; i < amount && !enough(); i++) {
    int id;
    do {
      id = (int)rndn(G_MAX + X_END - X_INIT);
      if (id >= G_MAX)
        id += X_INIT - G_MAX;
    } while (!can(id));
    size_t n = rndn(4) ? rndn(140) : rndn(N);
    uint8_t *p = raw + rndn(PG);
    uint64_t seed = any_seed();
    ctx_state(rndn(32));
    static const uint16_t cws[] = {0x037F, 0x027F, 0x007F, 0x0F7F, 0x0B7F,
                                   0x077F};
    uint16_t cw0 = cws[rndn(6)];
    uint32_t m0 = 0x1F80 | (uint32_t)(rndn(4) << 13) |
                  (rndn(2) ? 0x8000 : 0) | (rndn(2) ? 0x40 : 0), m1 = 0;
    x87env env;
    rec_case(name_of(id), p, n, seed, cw0);
    uint64_t r;
    __asm volatile("fninit; fldcw %0" ::"m"(cw0) : "memory");
    if (sse)
      __asm volatile("ldmxcsr %0" ::"m"(m0) : "memory");
    uintptr_t fl;
    r = call(id, p, n, seed);
    __asm volatile(
#ifdef __x86_64__
        "lea -128(%%rsp),%%rsp; pushfq; popq %0; lea 128(%%rsp),%%rsp"
#else
        "pushfl; popl %0"
#endif
        : "=r"(fl)::"memory", "cc");
    __asm volatile("stmxcsr %0" : "=m"(m1)::"memory");
    __asm volatile("fnstenv %0; fninit; cld" : "=m"(env)::"memory");
    uint32_t dflt = 0x1F80;
    __asm volatile("ldmxcsr %0" ::"m"(dflt) : "memory");
    n_fp++;
    n_calls++;
    sink += r;
    char key[100];
    if ((m1 ^ m0) & 0xFFC0) {
      snprintf(key, sizeof(key), "mxcsr:%s", name_of(id));
      fail(key, "the control bits of MXCSR change from %#x to %#x, len=%zu",
           m0, m1, n);
    }
    if (env.cw != cw0) {
      snprintf(key, sizeof(key), "x87cw:%s", name_of(id));
      fail(key, "the x87 control word changes from %#x to %#x, len=%zu", cw0,
           env.cw, n);
    }
    if (env.tw != 0xFFFF) {
      snprintf(key, sizeof(key), "x87stack:%s", name_of(id));
      fail(key, "the x87 registers are left in use (tag word %#x, len=%zu): "
           "MMX state or a value remains", env.tw, n);
    }
    if (fl & 0x400) {
      snprintf(key, sizeof(key), "df:%s", name_of(id));
      fail(key, "the direction flag is left set, len=%zu", n);
    }
    if (id < G_MAX && (id < G_2S_64 || id > G_2S_128)) {
      m_res m = m_hash((enum m_alg)g_targets[id].alg, p, n, seed, 1);
      if (m.lo != r) {
        snprintf(key, sizeof(key), "value:%s", name_of(id));
        fail(key, "the result depends on the rounding mode, len=%zu", n);
      }
    }
  }
  stat_out("fp_state_checks", n_fp);
}

/* ---- system calls */
static volatile sig_atomic_t in_call;
static void on_sigsys(int sig, siginfo_t *si, void *u) {
  (void)sig, (void)u;
  if (!in_call) {
    static const char m[] = "HARNESS: the harness made a system call\n";
    syscall(SYS_write, 2, m, sizeof(m) - 1); /* fd 2 is not permitted */
    _exit(2);
  }
  REC->what[0] = 'S';
  snprintf(REC->what + 1, 100, "%d", si->si_syscall);
  _exit(99);
}
static int filter_on(void) {
#ifdef __x86_64__
#define ARCH AUDIT_ARCH_X86_64
#else
#define ARCH AUDIT_ARCH_I386
#endif
  struct sock_filter f[] = {
      BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr)),
      BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_exit_group, 0, 1),
      BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW),
#ifdef SYS_rt_sigreturn
      BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_rt_sigreturn, 0, 1),
      BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW),
#endif
      BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP),
  };
  struct sock_fprog pr = {sizeof(f) / sizeof(*f), f};
  if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0))
    return -1;
  return prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &pr);
}
/* counters shared with the child */
static uint64_t *shm;
static void ph_syscall(uint64_t amount) {
  enum { N = 1 << 20 };
  uint8_t *raw = aligned_alloc(PG, N + 2 * PG);
  rnd_fill(raw, N + 2 * PG);
  shm = mmap(0, PG, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  static const char *const sc[] = {"t1ha2_atonce", "t1ha2_stream", "t1ha1_le",
                                   "t1ha1_be", "t1ha0", "all_enabled"};
  fflush(NULL);
  pid_t pid = fork();
  if (pid < 0)
    die("fork");
  if (pid == 0) {
    struct sigaction s;
    memset(&s, 0, sizeof(s));
    s.sa_sigaction = on_sigsys;
    s.sa_flags = SA_SIGINFO;
    sigaction(SIGSYS, &s, 0);
    if (filter_on())
      _exit(98);
    for (uint64_t i = 0; i < amount; i++) {
      int id = (int)rndn(G_MAX + X_END - X_INIT);
      if (id >= G_MAX)
        id += X_INIT - G_MAX;
      if (!can(id))
        continue;
      size_t n = rndn(8) ? rndn(300) : rndn(50) ? rndn(9000) : rndn(N);
      const uint8_t *p = raw + rndn(PG);
      uint64_t seed = any_seed();
      ctx_state(rndn(32));
      rec_case(name_of(id), p, n, seed, 0);
      in_call = 1;
      heap_calls = 0;
      heap_armed = 1;
      sink += call(id, p, n, seed);
      heap_armed = 0;
      in_call = 0;
      shm[0]++;
      if (heap_calls) {
        REC->what[0] = 'H';
        snprintf(REC->what + 1, 100, "%s", heap_last);
        _exit(99);
      }
    }
    for (unsigned i = 0; i < sizeof(sc) / sizeof(*sc); i++) {
      int rc = 0;
      rec_case("self-check", 0, i, 0, 0);
      in_call = 1;
      heap_calls = 0;
      heap_armed = 1;
      if (g_selfcheck(sc[i], &rc))
        shm[1]++;
      heap_armed = 0;
      in_call = 0;
      if (heap_calls) {
        REC->what[0] = 'H';
        snprintf(REC->what + 1, 100, "%s", heap_last);
        _exit(99);
      }
    }
    _exit(0);
  }
  int st;
  while (waitpid(pid, &st, 0) < 0)
    if (errno != EINTR)
      die("waitpid");
  if (WIFEXITED(st) && WEXITSTATUS(st) == 98) {
    printf("NOTE seccomp is not available here: system calls are observed by "
           "single-stepping only\n");
    stat_out("seccomp_unavailable", 1);
    return;
  }
  stat_out("calls_under_seccomp", shm[0]);
  stat_out("selfchecks_under_seccomp", shm[1]);
  n_calls += shm[0] + shm[1];
  if (WIFEXITED(st) && WEXITSTATUS(st) == 99) {
    char key[100];
    if (REC->what[0] == 'S') {
      snprintf(key, sizeof(key), "syscall:%s", REC->target);
      fail(key, "system call %s, len=%" PRIu64 " seed=%#" PRIx64,
           REC->what + 1, REC->len, REC->seed);
    } else {
      snprintf(key, sizeof(key), "heap:%s", REC->target);
      fail(key, "calls %s(), len=%" PRIu64 " seed=%#" PRIx64, REC->what + 1,
           REC->len, REC->seed);
    }
  } else if (WIFEXITED(st) && WEXITSTATUS(st) == 2)
    die("the harness made a system call");
  else if (!WIFEXITED(st) || WEXITSTATUS(st)) {
    char key[100];
    snprintf(key, sizeof(key), "died:%s", REC->target);
    fail(key, "status %#x, len=%" PRIu64 " seed=%#" PRIx64, st, REC->len,
         REC->seed);
  }
}

#ifdef WITH_COV
/* ---- work: basic blocks executed per call; the constants which the code
 * compares with, and input-to-state substitution, choose the inputs */
#include "cmpcov.h"
static uint64_t blocks, blk_limit;
static jmp_buf blk_jmp;
static volatile int blk_on;
void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
  (void)g;
  blocks++;
  if (blk_on && blocks > blk_limit) {
    blk_on = 0;
    longjmp(blk_jmp, 1);
  }
}
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
  (void)a, (void)b;
}
static uint64_t n_blocks, max_blk, n_pairs;
static void worked(int id, const uint8_t *p, size_t n, uint64_t seed,
                   const char *what) {
  uint64_t lim = (uint64_t)((120 + 1.2 * (double)n) * scale / 100);
  blk_limit = lim * 20 + 100000;
  rec_case(name_of(id), p, n, seed, 0);
  cmp_n = 0;
  blocks = 0;
  if (setjmp(blk_jmp) == 0) {
    blk_on = 1;
    cmp_on = 1;
    sink += call(id, p, n, seed);
  }
  blk_on = 0;
  cmp_on = 0;
  n_calls++;
  n_blocks += blocks;
  if (blocks * 100 / lim > max_blk) {
    max_blk = blocks * 100 / lim;
    if (getenv("RES_SHOW"))
      printf("NOTE blocks %s len=%zu: %" PRIu64 " of %" PRIu64 "\n",
             name_of(id), n, blocks, lim);
  }
  if (blocks > lim) {
    char key[100];
    snprintf(key, sizeof(key), "blocks:%s", name_of(id));
    fail(key, "%" PRIu64 "%s basic blocks are executed for %zu bytes (limit %"
         PRIu64 "), %s, address %p, seed=%#" PRIx64 ", data %s", blocks,
         blocks > blk_limit ? "+" : "", n, lim, what, (void *)p, seed,
         hexs(p, n));
  }
}
static void ph_work(uint64_t amount) {
  size_t max = (size_t)1 << 22;
  uint8_t *raw = aligned_alloc(PG, max + 2 * PG);
  rnd_fill(raw, max + 2 * PG);
  size_t known = 0;
  for (uint64_t i = 0; i < amount && !enough(); i++) {
    int id = (int)rndn(G_MAX + 4);
    if (id >= G_MAX)
      id += X_INIT - G_MAX;
    if (!can(id))
      continue;
    for (; known < cmp_nconsts; known++) {
      vals_add(cmp_consts[known]);
      vals_add(cmp_consts[known] + 1);
      vals_add(cmp_consts[known] - 1);
    }
    size_t n = rndn(3) ? rndn(100) : rndn(40) ? rndn(1000) : big_len(max);
    if (rndn(8) == 0)
      n = (size_t)val() % (rndn(8) ? 4096 : max);
    uint8_t *p = raw + (rndn(2) ? rndn(64) : rndn(PG));
    size_t h = n < 512 ? n : 512;
    pattern(p, h, (unsigned)rndn(14));
    uint64_t seed = any_seed();
    if (rndn(3) == 0 && known) {
      uint64_t c = cmp_consts[rndn(known)];
      seed = rndn(2) ? c : seed;
      if (h >= 8)
        memcpy(p + rndn(h - 7), &c, 8);
    }
    size_t part = rndn(32);
    ctx_state(part);
    worked(id, p, n, seed, "random");
    uint64_t b0 = blocks;
#define SAME_PLACE()                                                           \
  do {                                                                         \
    uint64_t lo = b0 < blocks ? b0 : blocks, hi = b0 < blocks ? blocks : b0;   \
    if (hi > lo + lo / 4 + 24) {                                               \
      char key[100];                                                           \
      snprintf(key, sizeof(key), "data-dependent:%s", name_of(id));            \
      fail(key, "%" PRIu64 " and %" PRIu64 " basic blocks for %zu bytes at "   \
           "the same place, seed=%#" PRIx64 ", data %s", b0, blocks, n, seed,  \
           hexs(p, n));                                                        \
    }                                                                          \
    n_pairs++;                                                                 \
  } while (0)
    /* substitution of a compared operand found in the seed or the data */
    size_t k = cmp_n < 64 ? cmp_n : 64;
    cmp_ev lg[64];
    memcpy(lg, cmp_log, k * sizeof(cmp_ev));
    if (n < 5000) {
      /* the same place with other data and another seed */
      static uint8_t keep[5000];
      memcpy(keep, p, n);
      rnd_fill(p, n);
      ctx_state(part);
      worked(id, p, n, rnd(), "random");
      memcpy(p, keep, n);
      SAME_PLACE();
    }
    unsigned tries = 0;
    for (size_t j = 0; j < k && tries < 8; j++) {
      unsigned w = lg[j].width;
      uint64_t mask = w == 8 ? ~(uint64_t)0 : ((uint64_t)1 << (8 * w)) - 1;
      if (lg[j].a == lg[j].b)
        continue;
      for (int dir = 0; dir < (lg[j].is_const ? 1 : 2); dir++) {
        uint64_t y = dir ? lg[j].b : lg[j].a, x = dir ? lg[j].a : lg[j].b;
        for (unsigned s = 0; s < 64 && w >= 2; s += 8)
          if (((seed >> s) & mask) == x) {
            ctx_state(part);
            worked(id, p, n, (seed & ~(mask << s)) | ((y & mask) << s),
                   "input-to-state");
            SAME_PLACE();
            tries++;
            break;
          }
        if (w >= 2)
          for (size_t at = 0; at + w <= h; at++) {
            uint64_t le = 0;
            memcpy(&le, p + at, w);
            if (le == x && tries < 8) {
              memcpy(p + at, &y, w);
              ctx_state(part);
              worked(id, p, n, seed, "input-to-state");
              SAME_PLACE();
              memcpy(p + at, &x, w);
              tries++;
            }
          }
      }
    }
  }
  stat_out("blocks_counted", n_blocks);
  stat_out("pairs_at_the_same_place", n_pairs);
  stat_out("max_percent_of_block_limit", max_blk);
  stat_out("comparison_sites", cmp_nsites);
}
#endif

int main(int argc, char **argv) {
  if (argc != 6)
    die("usage");
  shard = (unsigned)atoi(argv[3]);
  shards = (unsigned)atoi(argv[4]);
  scale = (unsigned)atoi(argv[5]);
  uint64_t h = shard * 7919u;
  for (const char *s = argv[1]; *s; s++)
    h = h * 31 + (uint8_t)*s;
  common_init(argc, argv, h);
  vals_init();
  uint64_t amount = strtoull(argv[2], 0, 0);
  if (g_t2_present) {
    size_t al = g_ctx_align < 32 ? 32 : g_ctx_align;
    CTX = aligned_alloc(al, (g_ctx_size + al - 1) / al * al);
  }
  rec_what("%s", argv[1]);
  const char *ph = argv[1];
  if (!strcmp(ph, "step"))
    ph_step(amount);
  else if (!strcmp(ph, "stack"))
    ph_stack(amount);
  else if (!strcmp(ph, "fp"))
    ph_fp(amount);
  else if (!strcmp(ph, "syscall"))
    ph_syscall(amount);
#ifdef WITH_COV
  else if (!strcmp(ph, "work"))
    ph_work(amount);
#endif
  else
    die("phase %s", ph);
  stat_out("calls", n_calls);
  char nm[60];
  snprintf(nm, sizeof(nm), "calls_%s", ph);
  stat_out(nm, n_calls);
  return 0;
}
