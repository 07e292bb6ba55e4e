/* Applications and libraries which were built separately, with options of
 * their own, work together.
 *   drv_abi link N          the applications are linked with this program
 *   drv_abi plug N file...  the applications are plugins to be loaded
 * With -DHOSTILE this program defines the symbols of the library itself, in
 * the global scope and with wrong results. */
#include "common.h"
#include "steer.h"
#include "abi.h"
#include <dlfcn.h>
#include <pthread.h>
#include <sys/wait.h>

g_target g_targets[G_MAX];
const int g_runtime_select = 0, g_use_ifunc = 0, g_aes_available = 0,
          g_t1_present = 1, g_t2_present = 1, g_t0_present = 1;
const size_t g_ctx_size = 0, g_ctx_align = 1;
void g_setup(void) {}

#ifdef HOSTILE
static unsigned long stolen;
#define STEAL(name)                                                           \
  uint64_t name(void);                                                        \
  uint64_t name(void) {                                                       \
    stolen++;                                                                 \
    return 0x5755;                                                            \
  }
STEAL(t1ha2_atonce) STEAL(t1ha2_atonce128) STEAL(t1ha2_init)
STEAL(t1ha2_update) STEAL(t1ha2_final) STEAL(t1ha1_le) STEAL(t1ha1_be)
STEAL(t1ha0) STEAL(t1ha0_32le) STEAL(t1ha0_32be) STEAL(t1ha0_ia32aes_noavx)
STEAL(t1ha0_ia32aes_avx) STEAL(t1ha0_ia32aes_avx2) STEAL(t1ha0_funcptr)
STEAL(t1ha_selfcheck__all_enabled) STEAL(t1ha_selfcheck__t1ha0)
STEAL(t1ha_selfcheck__t1ha1) STEAL(t1ha_selfcheck__t1ha2)
STEAL(t1ha_selfcheck__t1ha2_atonce) STEAL(t1ha_selfcheck__t1ha2_atonce128)
STEAL(t1ha_selfcheck__t1ha2_stream)
uint64_t (*t1ha0_resolve(void))(void);
uint64_t (*t1ha0_resolve(void))(void) { return t1ha0; }
#endif

#ifdef LINKED
extern const abi_app *const abi_linked[];
#else
static const abi_app *const abi_linked[] = {0};
#endif

enum { MAXAPP = 400 };
static const abi_app *apps[MAXAPP];
static const char *files[MAXAPP];
static unsigned n_apps;
static uint64_t calls, streams, handed, assigned, loads, checks;

static const int algs[AB_MAX] = {M_2_64, M_2_128, M_2S_64, M_2S_128, M_1_LE,
                                 M_1_BE, M_0_32LE, M_0_32BE, -1, -1};
static const char *const names[AB_MAX] = {
    "t1ha2_atonce", "t1ha2_atonce128", "t1ha2_stream64", "t1ha2_stream128",
    "t1ha1_le", "t1ha1_be", "t1ha0_32le", "t1ha0_32be", "t1ha0",
    "t1ha0_resolve()"};

/* which variant t1ha0 is, isn't the matter here (C05): it must be one of the
 * variants, and always the same one for the same application */
static int t0_alg(const abi_app *a) {
  static const int cand[] = {M_AES_B, M_AES_A, M_1_LE, M_2_64, M_0_32LE};
  static const char probe[] = "a probe which is longer than thirty two bytes, "
                              "and also longer than one hundred and twenty "
                              "eight bytes, so that each of the variants "
                              "gives a value of its own";
  static int memo[MAXAPP];
  unsigned i;
  for (i = 0; apps[i] != a; i++)
    ;
  if (!memo[i]) {
    rec_case("t1ha0", probe, sizeof(probe), 42, i);
    uint64_t h = a->call(AB_T1HA0, probe, sizeof(probe), 42, 0, 0);
    for (unsigned k = 0; k < 5; k++)
      if (h == m_hash(cand[k], probe, sizeof(probe), 42, 0).lo)
        memo[i] = cand[k] + 1;
    if (!memo[i]) {
      fail("t1ha0", "[%s %s]: no variant gives %#" PRIx64, a->name, a->options,
           h);
      memo[i] = M_1_LE + 1;
    }
  }
  return memo[i] - 1;
}

static uint8_t buf[9000];
static arena_t ar;
static const uint8_t *some_input(unsigned r, size_t len) {
  const uint8_t *p = buf + rndn(64);
  if (r % 4 == 3) {
    memcpy(ar.end - len, p, len);
    p = ar.end - len;
  }
  return p;
}
static size_t some_len(void) {
  return rndn(8) ? rndn(200) : rndn(8) ? rndn(1500) : rndn(8000);
}

static void judge(const abi_app *a, const char *how, int id, const uint8_t *p,
                  size_t len, uint64_t s, uint64_t s2, uint64_t lo,
                  uint64_t hi) {
  int alg = algs[id] < 0 ? t0_alg(a) : algs[id];
  m_res m = m_hash(alg, p, len, s, s2);
  if (lo != m.lo || (alg < M_1_LE && (id == AB_2_128 || id == AB_2S_128) &&
                     hi != m.hi))
    fail(names[id],
         "[%s %s] %s: len=%zu seed=%#" PRIx64 ",%#" PRIx64 " got %#" PRIx64
         ":%#" PRIx64 " must be %#" PRIx64 ":%#" PRIx64,
         a->name, a->options, how, len, s, s2, lo, hi, m.lo, m.hi);
}

static void values(const abi_app *a, unsigned n) {
  for (unsigned r = 0; r < n && !enough(); r++) {
    if (r % 16 == 0)
      rnd_fill(buf, sizeof(buf));
    for (int id = 0; id < AB_MAX; id++) {
      if (!(a->present >> id & 1))
        continue;
      size_t len = r < 140 ? r : some_len();
      uint64_t s = any_seed(), s2 = any_seed(), hi = 0x5555;
      const uint8_t *p = some_input(r, len);
      rec_case(names[id], p, len, s, s2);
      bool ptr = rndn(2);
      rec_what("%s %s", a->name, a->options);
      uint64_t lo = (ptr ? a->call_ptr : a->call)(id, p, len, s, s2, &hi);
      calls++;
      judge(a, ptr ? "by pointer" : "by name", id, p, len, s, s2, lo, hi);
    }
  }
}

static void reuse(const abi_app *a, unsigned n) {
  static const int ids[] = {AB_2_64, AB_2_128, AB_2S_128, AB_1_LE, AB_1_BE,
                            AB_0_32LE, AB_0_32BE, AB_T1HA0};
  for (unsigned r = 0; r < n && !enough(); r++)
    for (unsigned k = 0; k < 8; k++) {
      int id = ids[k];
      if (!(a->present >> id & 1))
        continue;
      uint64_t s = any_seed(), out[6] = {0};
      size_t len = 1 + some_len(), at = rndn(len);
      uint8_t *p = (uint8_t *)some_input(r, len), x = 1 + (uint8_t)rndn(255);
      rec_case(names[id], p, len, s, at);
      rec_what("%s %s: again", a->name, a->options);
      a->again(id, p, len, s, at, x, out);
      for (int i = 0; i < 3; i++) {
        judge(a, "called again", id, p, len, s, id == AB_2S_128 ? len : 0,
              out[i], out[3 + i]);
        calls++;
        p[at] ^= x;
      }
      p[at] ^= x;
    }
}

static void nulls(const abi_app *a) {
  for (int id = 0; id < AB_MAX; id++)
    if (a->present >> id & 1) {
      uint64_t out[2];
      rec_case(names[id], 0, 0, 1, 2);
      rec_what("%s %s: NULL", a->name, a->options);
      int k = a->null_kept(id, NULL, out);
      calls++;
      judge(a, "nothing at NULL", id, (const uint8_t *)"", 0, 1, 2, out[0],
            out[1]);
      if (!k)
        fail("null", "[%s %s]: after %s(NULL, 0) the application takes the "
             "pointer for one that isn't NULL", a->name, a->options,
             names[id]);
    }
}

#ifdef LINKED
/* the last moment: after destructors of the library, if there are any */
static bool finished;
__attribute__((destructor(101))) static void last(void) {
  for (unsigned i = 0; finished && i < n_apps && !enough(); i++)
    values(apps[i], 5);
  fflush(stdout);
}
#endif

static unsigned split(size_t len, size_t *chunk, unsigned max) {
  unsigned n = 0, kind = (unsigned)rndn(3);
  while (len && n < max - 1) {
    size_t k = kind == 0 ? rndn(9) : kind == 1 ? rndn(40) : rndn(300);
    if (k > len)
      k = len;
    chunk[n++] = k;
    len -= k;
  }
  if (len || !n)
    chunk[n++] = len;
  return n;
}

static void own_streams(const abi_app *a, unsigned n) {
  size_t chunk[24];
  static const char *const pl[] = {"local", "static", "member", "element",
                                   "heap"};
  for (unsigned r = 0; a->stream && r < n && !enough(); r++) {
    size_t len = r < 100 ? r : some_len();
    unsigned k = split(len, chunk, 24);
    int place = r % PL_MAX, wide = (int)rndn(2), bad = 0;
    uint64_t s = any_seed(), s2 = any_seed(), hi = 0;
    const uint8_t *p = some_input(r, len);
    rec_case("stream", p, len, s, s2);
    rec_what("%s %s place %s", a->name, a->options, pl[place]);
    uint64_t lo = a->stream(place, p, chunk, k, s, s2, wide, &hi, &bad);
    streams++;
    judge(a, pl[place], wide ? AB_2S_128 : AB_2S_64, p, len, s, s2, lo, hi);
    if (bad)
      fail("around", "[%s %s]: memory around the %s was changed, place: %s",
           a->name, a->options, bad & 1 ? "context" : "extra result",
           pl[place]);
  }
}

/* one stream, every step by another application (i.e. another build of the
 * library when they are plugins); the context exactly fills the end of a page
 * or is moved by copies, assignments */
static void relay(unsigned n) {
  size_t chunk[24];
  const abi_app *with[MAXAPP];
  unsigned k = 0;
  for (unsigned i = 0; i < n_apps; i++)
    if (apps[i]->init)
      with[k++] = apps[i];
  if (!k)
    return;
  size_t size = with[0]->layout[0], al = with[0]->layout[1];
  arena_t c = arena_new(2);
  for (unsigned r = 0; r < n && !enough(); r++) {
    if (r % 16 == 0)
      rnd_fill(buf, sizeof(buf));
    size_t len = some_len();
    unsigned m = split(len, chunk, 24);
    const uint8_t *p = some_input(r, len), *q = p;
    uint64_t s = any_seed(), s2 = any_seed(), hi = 0, lo;
    uint8_t *ctx = c.end - size;
    const abi_app *a = with[rndn(k)], *first = a;
    rec_case("relay", p, len, s, s2);
    rec_what("begun by %s %s", a->name, a->options);
    memset(c.base, (int)rnd(), c.size);
    a->init(ctx, s, s2);
    for (unsigned i = 0; i < m; i++) {
      if (rndn(4) == 0) { /* elsewhere: another slot of the arena */
        uint8_t *to = rndn(3) ? c.base + al * rndn(PG / al) : c.end - size;
        if (to != ctx && (to + size <= ctx || ctx + size <= to)) {
          if (rndn(2))
            memcpy(to, ctx, size);
          else {
            with[rndn(k)]->assign(to, ctx);
            assigned++;
          }
          memset(ctx, 0xEE, size);
          ctx = to;
        }
      }
      a = with[rndn(k)];
      rec_what("begun by %s %s, now %s %s", first->name, first->options,
               a->name, a->options);
      a->update(ctx, chunk[i] ? q : NULL, chunk[i]);
      q += chunk[i];
      handed++;
    }
    a = with[rndn(k)];
    bool wide = rndn(2);
    lo = a->final(ctx, wide ? &hi : NULL);
    judge(a, first->name, wide ? AB_2S_128 : AB_2S_64, p, len, s, s2, lo, hi);
  }
}

static void selfchecks(const abi_app *a) {
  for (unsigned i = 0;; i++) {
    int rc = 0x77;
    const char *nm = "?";
    rec_case("selfcheck", 0, i, 0, 0);
    rec_what("%s %s", a->name, a->options);
    if (a->selfcheck(i, &rc, &nm) < 0)
      break;
    checks++;
    if (rc)
      fail("selfcheck", "[%s %s]: t1ha_selfcheck__%s() returns %d", a->name,
           a->options, nm, rc);
  }
}

static const abi_app *plug(const char *file, int how, void **h) {
  rec_case("dlopen", 0, 0, 0, 0);
  rec_what("%s", file);
  *h = dlopen(file, how);
  if (!*h) {
    fail("dlopen", "%s: %s", file, dlerror());
    return 0;
  }
  const abi_app *(*f)(void) =
      (const abi_app *(*)(void))dlsym(*h, "abi_plugin");
  if (!f) {
    fail("visibility", "%s: a function which an application defines after "
         "including t1ha.h isn't exported: %s", file, dlerror());
    return 0;
  }
  loads++;
  return f();
}

static void *loader(void *arg) {
  void *h;
  const abi_app *a = plug(arg, rndn(2) ? RTLD_NOW : RTLD_LAZY, &h);
  if (!a)
    return 0;
  uint64_t s = any_seed(), hi = 0;
  size_t len = rndn(300);
  for (int id = 0; id < AB_T1HA0; id++)
    if (a->present >> id & 1) {
      rec_case(names[id], buf, len, s, 3);
      uint64_t lo = a->call(id, buf, len, s, 3, &hi);
      calls++;
      judge(a, "just loaded", id, buf, len, s, 3, lo, hi);
    }
  if (a->present >> AB_T1HA0 & 1) {
    rec_case("t1ha0", buf, len, s, 3);
    uint64_t x = a->call(AB_T1HA0, buf, len, s, 3, 0),
             y = a->call_ptr(AB_T1HA0, buf, len, s, 3, 0);
    calls += 2;
    if (x != y)
      fail("t1ha0", "[%s %s] just loaded: by name %#" PRIx64
           ", by pointer %#" PRIx64, a->name, a->options, x, y);
  }
  dlclose(h);
  return 0;
}

int main(int argc, char **argv) {
  common_init(argc, argv, 0xC16);
  vals_init();
  if (argc < 3)
    die("usage");
  unsigned n = atoi(argv[2]);
  ar = arena_new(3);
  rnd_fill(buf, sizeof(buf));
  if (!strcmp(argv[1], "link")) {
    for (n_apps = 0; abi_linked[n_apps]; n_apps++)
      apps[n_apps] = abi_linked[n_apps];
  } else {
    /* loaded, used and unloaded again and again, in threads and children */
    for (unsigned r = 0; r < 3 && !enough(); r++)
      for (int i = 3; i < argc && !enough(); i++) {
        pthread_t t;
        if (r == 1) {
          if (pthread_create(&t, 0, loader, argv[i]) || pthread_join(t, 0))
            die("thread");
        } else
          loader(argv[i]);
      }
    for (int i = 3; i < argc && n_apps < MAXAPP; i++) {
      void *h;
      const abi_app *a =
          plug(argv[i], (i & 1 ? RTLD_NOW : RTLD_LAZY) | RTLD_LOCAL, &h);
      if (a) {
        files[n_apps] = argv[i];
        apps[n_apps++] = a;
      }
    }
  }
  unsigned sized = 0;
  for (unsigned i = 0; i < n_apps; i++)
    for (unsigned k = 0; k < 2; k++)
      if (apps[i]->layout[k] != apps[sized]->layout[k])
        fail("layout",
             "t1ha_context_t: the %s is %lu for [%s %s] and %lu for [%s %s]",
             k ? "alignment" : "size", apps[i]->layout[k], apps[i]->name,
             apps[i]->options, apps[sized]->layout[k], apps[sized]->name,
             apps[sized]->options);
  for (unsigned i = 0; i < n_apps; i++)
    if (!apps[i]->same_packing)
      fail("packing", "[%s %s]: t1ha.h changes the layout of structures which "
           "follow", apps[i]->name, apps[i]->options);
  for (unsigned i = 0; i < n_apps && !enough(); i++) {
    if (apps[i]->present >> AB_T1HA0 & 1)
      t0_alg(apps[i]);
    values(apps[i], n);
    reuse(apps[i], n / 4);
    nulls(apps[i]);
    own_streams(apps[i], n);
    selfchecks(apps[i]);
  }
  if (n_apps)
    relay(n * 20);
  /* a child made by fork() */
  if (!enough()) {
    fflush(NULL);
    pid_t p = fork();
    if (!p) {
      n_fails = 0;
      for (unsigned i = 0; i < n_apps && !enough(); i++)
        values(apps[i], 10);
      relay(100);
      fflush(NULL);
      _exit(n_fails ? 1 : 0);
    }
    int st = 0;
    if (p < 0 || waitpid(p, &st, 0) != p)
      die("fork");
    if (WIFSIGNALED(st))
      fail("child", "died by signal %d in %s (%s)", WTERMSIG(st), REC->target,
           REC->what);
  }
#ifdef HOSTILE
  if (stolen)
    fail("interposed", "%lu calls of the copies inside of the plugins went to "
         "the foreign symbols of the same names", stolen);
#endif
  stat_out("applications", n_apps);
  stat_out("values", calls);
  stat_out("streams", streams);
  stat_out("stream_steps_in_a_foreign_context", handed);
  stat_out("contexts_assigned", assigned);
  stat_out("selfchecks", checks);
  stat_out("plugins_loaded", loads);
  printf("SAMPLE %u applications, first %s %s, t1ha_context_t %lu/%lu, last "
         "relay of %zu bytes\n", n_apps, n_apps ? apps[0]->name : "-",
         n_apps ? apps[0]->options : "-", n_apps ? apps[0]->layout[0] : 0,
         n_apps ? apps[0]->layout[1] : 0, (size_t)REC->len);
  fflush(NULL);
#ifdef LINKED
  finished = true;
#endif
  return 0;
}
