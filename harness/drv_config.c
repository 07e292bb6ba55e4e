/* A smoke run of one build configuration: every function that is enabled is
 * compared with the model, the self-checks pass, t1ha0 is what it must be.
 *   drv_config N */
#include "common.h"
#include "steer.h"
static bool has_hi(int id) { return id == G_2_128 || id == G_2S_128; }
int main(int argc, char **argv) {
  common_init(argc, argv, 0xC12);
  vals_init();
  unsigned n = argc > 1 ? atoi(argv[1]) : 20;
  /* what the macros ask for */
  unsigned want = argc > 2 ? strtoul(argv[2], 0, 0) : 7;
  int api = argc > 3 && atoi(argv[3]);
  static const uint8_t gen[G_MAX] = {2, 2, 2, 2, 1, 1, 0, 0, 8, 8, 8, 0, 9};
  for (int id = 0; id < G_MAX; id++) {
    int need = gen[id] < 8 ? want >> gen[id] & 1
               : gen[id] == 8
                   ? (want & 1) && g_aes_available && !api
                   : (want & 1) && g_runtime_select;
    if (id == G_AVX2 && !g_avx2_available)
      need = 0;
    if (!!g_targets[id].present != need)
      fail("presence", "target %d: present %d, must be %d", id,
           g_targets[id].present, need);
  }
  uint64_t calls = 0, sc = 0;
  static uint8_t buf[9000];
  arena_t a = arena_new(3);
  for (unsigned r = 0; r < n && !enough(); r++)
    for (int id = 0; id < G_MAX; id++) {
      if (!g_targets[id].present || !cpu_can(id))
        continue;
      for (unsigned len = 0; len < (r ? 180u : 300u); len++) {
        unsigned off = r & 1 ? (unsigned)rndn(64) : (r / 2) & 15;
        size_t ln = r > 2 && len > 170 ? 200 + rndn(6000) : len;
        const uint8_t *p = buf + off;
        if (len % 32 == 0 || r % 4 == 3)
          rnd_fill(buf, sizeof(buf));
        if (r % 5 == 4 && ln <= a.size) { /* at the end of a page */
          memcpy(a.end - ln, p, ln);
          p = a.end - ln;
        }
        uint64_t s = any_seed(), s2 = any_seed(), hi = 0x5555;
        if (r % 3 != 0) { /* special operands */
          unsigned density = 1 + (unsigned)rndn(3);
          m_steer(g_targets[id].alg, (uint8_t *)p, ln, s, s2, pick, &density);
        }
        rec_case(g_targets[id].name, p, ln, s, s2);
        uint64_t lo = g_call(id, p, ln, s, s2, has_hi(id) ? &hi : NULL);
        m_res m = m_hash(g_targets[id].alg, p, ln, s, s2);
        calls++;
        if (lo != m.lo || (has_hi(id) && hi != m.hi)) {
          fail(g_targets[id].name,
               "len=%zu addr%%64=%u seed=%#" PRIx64 ",%#" PRIx64
               " got %#" PRIx64 ":%#" PRIx64 " must be %#" PRIx64 ":%#" PRIx64
               " (%s)",
               ln, (unsigned)((uintptr_t)p & 63), s, s2, lo, hi, m.lo, m.hi,
               m_name[g_targets[id].alg]);
          break;
        }
      }
    }
  /* segmented streams */
  for (unsigned r = 0; g_ctx_size && r < n * 40 && !enough(); r++) {
    size_t len = rndn(400), k = 0;
    _Alignas(64) uint8_t ctx[512];
    uint64_t s = any_seed(), s2 = any_seed(), hi = 0;
    rnd_fill(buf, 512);
    rec_case("stream", buf, len, s, s2);
    g_init(ctx, s, s2);
    while (k < len) {
      size_t m = rndn(70);
      if (m > len - k)
        m = len - k;
      g_update(ctx, m ? buf + k : NULL, m);
      k += m;
    }
    uint64_t lo = g_final(ctx, r & 1 ? &hi : NULL);
    m_res m = m_hash(r & 1 ? M_2S_128 : M_2S_64, buf, len, s, s2);
    calls++;
    if (lo != m.lo || ((r & 1) && hi != m.hi))
      fail("stream", "len=%zu: got %#" PRIx64 ":%#" PRIx64 " must be %#" PRIx64
           ":%#" PRIx64, len, lo, hi, m.lo, m.hi);
  }
  static const char *const SC[] = {
      "all_enabled", "t1ha2_atonce", "t1ha2_atonce128", "t1ha2_stream",
      "t1ha2", "t1ha1_le", "t1ha1_be", "t1ha1", "t1ha0_32le", "t1ha0_32be",
      "t1ha0", "t1ha0_ia32aes_noavx", "t1ha0_ia32aes_avx",
      "t1ha0_ia32aes_avx2"};
  for (unsigned i = 0; i < 14; i++) {
    int rc = 0;
    rec_case(SC[i], 0, 0, 0, 0);
    if ((i == 12 && !cpu_can(G_AVX)) || (i == 13 && !cpu_can(G_AVX2)) ||
        (i == 11 && !cpu_can(G_NOAVX)))
      continue;
    if (g_selfcheck(SC[i], &rc)) {
      sc++;
      if (rc)
        fail("selfcheck", "t1ha_selfcheck__%s() returns %d", SC[i], rc);
    }
  }
  stat_out("carry_boundary_operands", n_carry);
  stat_out("values", calls);
  stat_out("selfchecks", sc);
  fflush(NULL);
  return 0;
}
