/* The selection of t1ha0 on emulated CPUs and operating systems. The real code
 * runs single-stepped; CPUID and XGETBV are emulated, the feature class of each
 * executed instruction is compared with what the emulated machine has.
 *   drv_cpu static SHARD NSHARDS THOROUGH
 *   drv_cpu so PATH IFUNC THOROUGH      (dlopen on the emulated machine) */
#include "common.h"
#include "step.h"
#include <dlfcn.h>

typedef struct {
  unsigned aes, osx, avx, avx2, xcr0, max, noise;
} fake_t;
static fake_t F;
static uint64_t nz;
static unsigned noise32(void) {
  if (F.noise == 0)
    return 0;
  if (F.noise == 1)
    return ~0u;
  return (unsigned)splitmix(&nz);
}
static uintptr_t lo_pc, hi_pc; /* the code under the class monitor */
static unsigned long n_steps, n_cpuid, n_xgetbv, n_classified;
static unsigned used;          /* feature classes of the executed code */
static uint8_t bad_bytes[16];
static unsigned bad_feat;
static uintptr_t bad_pc;
static char err[160];
static unsigned reported; /* by CPUID, as emulated, other features */

/* bits which the machine reports besides AES, AVX, AVX2 */
static void fake_leaf1(unsigned *a, unsigned *b, unsigned *c, unsigned *d) {
  *a = noise32();
  *b = noise32();
  *d = noise32() | 0x07808011;
  unsigned v = noise32();
  v &= ~(1u << 25 | 1u << 26 | 1u << 27 | 1u << 28);
  if (F.aes)
    v |= 1u << 25 | 1u << 0 | 1u << 9 | 1u << 19 | 1u << 20;
  if (F.osx)
    v |= 1u << 27 | 1u << 26;
  if (F.avx)
    v |= 1u << 28;
  *c = v;
  reported |= F_AES * F.aes;
  if (v & 1)
    reported |= F_SSE3;
  if (v >> 9 & 1)
    reported |= F_SSSE3;
  if (v >> 19 & 1)
    reported |= F_SSE41;
  if (v >> 20 & 1)
    reported |= F_SSE42;
  if (v >> 22 & 1)
    reported |= F_MOVBE;
  if (v >> 23 & 1)
    reported |= F_POPCNT;
  if (v >> 1 & 1)
    reported |= F_CLMUL;
}
static bool fake_avx_usable(void) {
  return F.max >= 1 && F.osx && F.avx && (F.xcr0 & 6) == 6;
}
static bool fake_aes(void) { return F.max >= 1 && F.aes; }
static bool fake_avx2_usable(void) {
  return fake_avx_usable() && F.max >= 7 && F.avx2;
}
static unsigned allowed(void) {
  unsigned f = 0;
  if (fake_aes())
    f |= F_AES | F_SSE3 | F_SSSE3 | F_SSE41 | F_SSE42;
  if (F.max >= 1 && F.osx)
    f |= F_XSAVE;
  if (fake_avx_usable())
    f |= F_AVX | F_SSE3 | F_SSSE3 | F_SSE41 | F_SSE42;
  if (fake_avx2_usable())
    f |= F_AVX2;
  return f | reported;
}

static int emulate(ucontext_t *u) {
  const uint8_t *p = (const uint8_t *)UC_PC(u);
  if (p[0] == 0x0F && p[1] == 0xA2) {
    unsigned leaf = (unsigned)UC_AX(u), sub = (unsigned)UC_CX(u);
    unsigned a, b, c, d;
    n_cpuid++;
    if (leaf == 0) {
      a = F.max;
      b = 0x756e6547, d = 0x49656e69, c = 0x6c65746e;
    } else if (leaf == 1 && F.max >= 1)
      fake_leaf1(&a, &b, &c, &d);
    else if (leaf == 7 && F.max >= 7 && sub == 0) {
      a = noise32() & 1;
      b = (noise32() & ~(1u << 5)) | F.avx2 << 5;
      /* AVX-512 is never usable here */
      b &= ~(1u << 16);
      c = noise32();
      d = noise32();
      if ((b >> 3 & 1) && (b >> 8 & 1))
        reported |= F_BMI;
    } else if (leaf == 0x80000000u)
      a = 0x80000000u, b = c = d = 0;
    else /* beyond the maximum: whatever (on real CPUs: the last leaf) */
      a = noise32(), b = noise32(), c = noise32(), d = noise32();
    UC_AX(u) = a, UC_BX(u) = b, UC_CX(u) = c, UC_DX(u) = d;
    UC_PC(u) += 2;
    return 1;
  }
  if (p[0] == 0x0F && p[1] == 0x01 && p[2] == 0xD0) {
    n_xgetbv++;
    if (!(F.max >= 1 && F.osx)) {
      if (!*err)
        snprintf(err, sizeof(err), "XGETBV without OSXSAVE (#UD)");
    } else if ((unsigned)UC_CX(u) != 0 && !*err)
      snprintf(err, sizeof(err), "XGETBV of XCR%u (#GP)", (unsigned)UC_CX(u));
    UC_AX(u) = F.xcr0;
    UC_DX(u) = 0;
    UC_PC(u) += 3;
    return 1;
  }
  return 0;
}

static void on_step(ucontext_t *u) {
  n_steps++;
  while (emulate(u))
    ;
  uintptr_t pc = UC_PC(u);
  if (pc >= lo_pc && pc < hi_pc) {
    n_classified++;
    unsigned f = insn_feature((const uint8_t *)pc, sizeof(void *) == 8);
    used |= f;
    if ((f & ~allowed()) && !bad_feat) {
      bad_feat = f & ~allowed();
      bad_pc = pc;
      memcpy(bad_bytes, (void *)pc, sizeof(bad_bytes));
    }
  }
}

static char *fake_text(void) {
  static char b[160];
  snprintf(b, sizeof(b),
           "aes=%u osxsave=%u avx=%u avx2=%u xcr0=%#x maxleaf=%#x noise=%u",
           F.aes, F.osx, F.avx, F.avx2, F.xcr0, F.max, F.noise);
  return b;
}
static void begin(void) {
  reported = 0;
  used = 0;
  bad_feat = 0;
  *err = 0;
  nz = 0x1234567 + F.noise;
  rec_what("%s", fake_text());
}
static void judge(const char *what) {
  if (*err)
    fail(what, "%s on %s", err, fake_text());
  if (bad_feat) {
    char n[128] = "";
    for (int i = 0; i < 18; i++)
      if (bad_feat >> i & 1)
        strcat(strcat(n, f_names[i]), " ");
    fail(what, "executed an instruction which needs %s(bytes %s) on %s", n,
         hexs(bad_bytes, 8), fake_text());
  }
}

enum { W_NOAVX, W_AVX, W_AVX2, W_PORT };
static const char *const w_name[] = {"ia32aes_noavx", "ia32aes_avx",
                                     "ia32aes_avx2", "portable"};
static int want(void) {
  if (!fake_aes())
    return W_PORT;
  if (!fake_avx_usable())
    return W_NOAVX;
  return fake_avx2_usable() ? W_AVX2 : W_AVX;
}
static const int w_gid[] = {G_NOAVX, G_AVX, G_AVX2,
                            sizeof(void *) == 8 ? G_1_LE : G_0_32LE};
static int w_alg(int w) { return g_targets[w_gid[w]].alg; }

static __attribute__((noinline)) g_fn step_resolve(void) {
  g_fn r;
  step_begin();
  r = g_resolve();
  step_end();
  return r;
}
static __attribute__((noinline)) uint64_t step_call(g_fn f, const void *p,
                                                    size_t n, uint64_t s) {
  uint64_t r;
  step_begin();
  r = f(p, n, s);
  step_end();
  return r;
}
static __attribute__((noinline)) int step_sc(int *rc) {
  int r;
  step_begin();
  r = g_selfcheck("t1ha0", rc);
  step_end();
  return r;
}

/* all fakes of the enumeration; returns 0 at the end */
static const unsigned XC[] = {7, 3, 0, 1, 5, 0xE7, 2, 4, 6, 0xE3, 0x207};
static const unsigned MX[] = {7, 0x20, 1, 0xD, 0, 6, 2, 0x16};
static int fake_at(unsigned i, int th, int noises) {
  unsigned nx = th ? 11 : 7, nm = th ? 8 : 6;
  F.noise = i % noises, i /= noises;
  F.aes = i & 1, F.osx = i >> 1 & 1, F.avx = i >> 2 & 1, F.avx2 = i >> 3 & 1;
  i >>= 4;
  F.xcr0 = XC[i % nx], i /= nx;
  if (i >= nm)
    return 0;
  F.max = MX[i];
  return 1;
}
static unsigned noise_kinds(int th) { return th ? 12 : 4; }

static uint64_t n_sel, n_exec;

static void exec_check(const char *what, g_fn f, int w, unsigned n) {
  static uint8_t buf[1024];
  if (!cpu_can(w_gid[w])) {
    static int once;
    if (!once++)
      printf("NOTE this CPU can't run %s\n", w_name[w]);
    return;
  }
  for (unsigned k = 0; k < n; k++) {
    size_t len = k < 140 ? k : rndn(700);
    unsigned mis = (unsigned)rndn(32);
    rnd_fill(buf, sizeof(buf));
    uint64_t seed = any_seed();
    rec_case(what, buf + mis, len, seed, 0);
    begin();
    uint64_t r = step_call(f, buf + mis, len, seed);
    n_exec++;
    judge(what);
    uint64_t m = m_hash(w_alg(w), buf + mis, len, seed, 0).lo;
    if (r != m)
      fail(what,
           "%s, expected the variant %s: len=%zu seed=%#" PRIx64 " got %#" PRIx64
           ", the variant gives %#" PRIx64,
           fake_text(), w_name[w], len, seed, r, m);
    if (enough())
      return;
  }
}

static void do_static(unsigned shard, unsigned nsh, int th) {
  extern char __executable_start[], etext[];
  lo_pc = (uintptr_t)__executable_start;
  hi_pc = (uintptr_t)etext;
  unsigned long seen[4] = {0};
  int kinds = noise_kinds(th);
  for (unsigned i = 0; fake_at(i, th, kinds); i++) {
    if (i % nsh != shard)
      continue;
    if (g_resolve()) {
      int w = want();
      rec_case("t1ha0_resolve", 0, 0, 0, 0);
      begin();
      g_fn f = step_resolve();
      n_sel++;
      seen[w]++;
      judge("resolve");
      if (f != g_targets[w_gid[w]].plain) {
        const char *got = "?";
        for (int k = 0; k < G_MAX; k++)
          if (g_targets[k].present && g_targets[k].plain == f)
            got = g_targets[k].name;
        fail("resolve", "selected %s, must be %s, on %s", got, w_name[w],
             fake_text());
      }
      /* the selection is stable */
      if ((i & 7) == 0) {
        begin();
        if (step_resolve() != f)
          fail("resolve", "the second selection differs on %s", fake_text());
      }
      if (enough())
        return;
      if (F.noise == 0 && i % 5 == 0 && f == g_targets[w_gid[w]].plain)
        exec_check("selected", f, w, 3);
      int rc;
      static unsigned scs[4];
      if (F.noise != 1 && (i % 7 == shard % 7) && cpu_can(w_gid[w]) &&
          scs[w]++ < (th ? 40u : 2u)) {
        rec_case("t1ha_selfcheck__t1ha0", 0, 0, 0, 0);
        begin();
        if (step_sc(&rc)) {
          stat_out("stepped_selfchecks", 1);
          judge("selfcheck_t1ha0");
          if (rc)
            fail("selfcheck_t1ha0", "returns %d on %s", rc, fake_text());
        }
      }
    }
    if (enough())
      return;
  }
  /* each variant in depth on the weakest machine that selects it */
  static const fake_t weak[] = {{1, 0, 0, 0, 0, 1, 0},
                                {1, 1, 1, 0, 6, 1, 0},
                                {1, 1, 1, 1, 6, 7, 0},
                                {0, 0, 0, 0, 0, 0, 0}};
  for (int w = 0; w < 4; w++)
    if (w % nsh == shard || nsh == 1) {
      F = weak[w];
      begin();
      g_fn f = step_resolve();
      exec_check(w_name[w], f, w, th ? 2000 : 320);
      printf("SAMPLE on %s: %s, features used by the code: %#x\n", fake_text(),
             w_name[w], used);
    }
  for (int w = 0; w < 4; w++) {
    char b[64];
    sprintf(b, "selected_%s", w_name[w]);
    stat_out(b, seen[w]);
  }
}

static __attribute__((noinline)) void *step_dlopen(const char *path) {
  void *h;
  step_begin();
  h = dlopen(path, RTLD_NOW | RTLD_LOCAL);
  step_end();
  return h;
}
static __attribute__((noinline)) void *step_dlsym(void *h, const char *n) {
  void *r;
  step_begin();
  r = dlsym(h, n);
  step_end();
  return r;
}
static void text_of(const char *path) {
  FILE *f = fopen("/proc/self/maps", "r");
  char ln[600];
  lo_pc = UINTPTR_MAX, hi_pc = 0;
  while (fgets(ln, sizeof(ln), f)) {
    unsigned long a, b;
    char perm[8];
    if (strstr(ln, path) && sscanf(ln, "%lx-%lx %7s", &a, &b, perm) == 3 &&
        perm[2] == 'x') {
      if (a < lo_pc)
        lo_pc = a;
      if (b > hi_pc)
        hi_pc = b;
    }
  }
  fclose(f);
}

static void do_so(const char *path, int ifunc, int th, unsigned shard,
                  unsigned nsh) {
  int kinds = 3;
  unsigned k = 0;
  uint64_t opens = 0;
  for (unsigned i = 0; fake_at(i, 1, kinds); i++) {
    /* a sample that covers all the values, decorrelated from the counters */
    uint64_t hsh = i * 7919u + 3;
    if (splitmix(&hsh) % (th ? 8 : ifunc ? 30 : 90))
      continue;
    if (k++ % nsh != shard)
      continue;
    int w = want();
    lo_pc = hi_pc = 0;
    rec_case("dlopen", 0, 0, 0, 0);
    begin();
    void *h = ifunc && k % 8 ? dlopen(path, RTLD_NOW | RTLD_LOCAL)
                             : step_dlopen(path);
    if (!h)
      die("dlopen: %s", dlerror());
    opens++;
    judge("dlopen");
    g_fn f;
    rec_case("dlsym(t1ha0)", 0, 0, 0, 0);
    if (dlsym(h, "t1ha0") != NULL) {
      f = (g_fn)step_dlsym(h, "t1ha0");
    } else {
      g_fn *v = dlsym(h, "t1ha0_funcptr");
      f = v ? *v : 0;
    }
    if (!f)
      die("no t1ha0 in %s", path);
    judge("dlsym");
    text_of(path);
    exec_check(ifunc ? "t1ha0-ifunc" : "t1ha0_funcptr", f, w, 4);
    if (!ifunc) {
      g_fn *v = dlsym(h, "t1ha0_funcptr");
      if (*v != f)
        f = *v, exec_check("t1ha0_funcptr-later", f, w, 2);
    }
    if (enough())
      return;
    lo_pc = hi_pc = 0;
    dlclose(h);
    if (dlopen(path, RTLD_NOW | RTLD_NOLOAD))
      die("can't unload %s", path);
  }
  stat_out("stepped_dlopens", opens);
  n_sel += opens;
}

int main(int argc, char **argv) {
  common_init(argc, argv, 0xC05);
  vals_init();
  step_install(on_step, 1);
  if (argc > 4 && !strcmp(argv[1], "static"))
    do_static(atoi(argv[2]), atoi(argv[3]), atoi(argv[4]));
  else if (argc > 6 && !strcmp(argv[1], "so"))
    do_so(argv[2], atoi(argv[3]), atoi(argv[4]), atoi(argv[5]), atoi(argv[6]));
  else
    die("usage");
  stat_out("selections", n_sel);
  stat_out("executions", n_exec);
  stat_out("steps", n_steps);
  stat_out("classified_instructions", n_classified);
  stat_out("cpuid_emulated", n_cpuid);
  stat_out("xgetbv_emulated", n_xgetbv);
  fflush(NULL);
  return 0;
}
