/* t1ha0 at the first possible moments; no arena, no arguments needed.
 * Built per link mode. Prints the values seen; the values are compared with
 * the model. -DLATE: without the call from the preinit array (shared). */
#include "common.h"
#include <pthread.h>
#ifdef USE_DLOPEN
#include <dlfcn.h>
static g_fn dl_f;
#define CALL(p, n, s) dl_f(p, n, s)
static void dl_get(void) {
  void *h = dlopen(getenv("T1HA_SO"), atoi(getenv("T1HA_LAZY"))
                                          ? RTLD_LAZY : RTLD_NOW);
  if (!h)
    die("dlopen %s", dlerror());
  dl_f = (g_fn)dlsym(h, "t1ha0");
  if (!dl_f) {
    g_fn *v = dlsym(h, "t1ha0_funcptr");
    if (!v)
      die("dlsym %s", dlerror());
    dl_f = *v;
  }
}
#else
uint64_t start_call(const void *, size_t, uint64_t);
#define CALL start_call
#endif

#define N 48
static uint8_t data[4][N];
static uint64_t res[4][N];
static int seen[4];
static void moment(int k) {
  for (int i = 0; i < N; i++)
    data[k][i] = (uint8_t)(i * 37 + k);
  for (int i = 0; i < N; i++)
    res[k][i] = CALL(data[k], i, (i + 1) * 0x123456789ull);
  seen[k] = 1;
}
#ifndef USE_DLOPEN
#ifdef PREINIT
static void pre(int a, char **b, char **c) {
  (void)a, (void)b, (void)c;
  moment(0);
}
__attribute__((section(".preinit_array"), used)) static void (*pp)(
    int, char **, char **) = pre;
#endif
#ifdef EARLY
static __attribute__((constructor(101))) void early(void) { moment(1); }
#endif
#endif
static void *thr(void *x) {
  moment(3);
  return x;
}
int main(int argc, char **argv) {
  rec_open();
  rec_case("t1ha0@start", 0, 0, 0, 0);
#ifdef USE_DLOPEN
  dl_get();
#endif
  moment(2);
#ifndef NO_THREAD
  pthread_t t;
  if (pthread_create(&t, 0, thr, 0))
    die("thread");
  pthread_join(t, 0);
#endif
  common_init(argc, argv, 5);
  int alg = expected_t1ha0_alg();
  static const char *const mn[] = {"preinit", "constructor", "main", "thread"};
  int total = 0;
  for (int k = 0; k < 4; k++) {
    if (!seen[k])
      continue;
    total++;
    for (int i = 0; i < N; i++) {
      uint64_t m = m_hash(alg, data[k], i, (i + 1) * 0x123456789ull, 0).lo;
      if (m != res[k][i]) {
        fail(mn[k], "len=%d got %#" PRIx64 " must be %#" PRIx64 " (%s)", i,
             res[k][i], m, m_name[alg]);
        break;
      }
    }
  }
  stat_out("moments", total);
  stat_out("start_values", total * N);
  fflush(NULL);
  return 0;
}
