/* Runs the library, compiled for a foreign platform, inside of the
 * interpreter of mips.c and judges every call: the value (against the model),
 * each load and store (mips.c), the termination.
 *   drv_mips IMAGE STRICT ONESHOT EXPECTED-TARGETS PHASE AMOUNT */
#include "common.h"
#include "steer.h"
#include "mips.h"

g_target g_targets[G_MAX];
const int g_runtime_select = 0, g_use_ifunc = 0, g_aes_available = 0,
          g_t1_present = 1, g_t2_present = 1, g_t0_present = 1;
const size_t g_ctx_size = 0, g_ctx_align = 1;

static mips M;
static size_t ctx_size, ctx_align;
static bool oneshot;

enum {
  A_STACK = 0x480000, STACK = 0x10000, A_BOX = 0x500000, A_CTX = 0x510000,
  A_HI = 0x520000, A_IN = 0x600000, IN_SIZE = 0x100000
};
enum { B_OP, B_ID, B_DATA, B_LEN, B_SEED, B_SEED2, B_CTX, B_HI, B_RES, B_AUX };
static void bput(int f, uint64_t v) { mips_put64(&M, A_BOX + 8 * f, v); }
static uint64_t bget(int f) { return mips_get64(&M, A_BOX + 8 * f); }

static uint64_t guest_steps, guest_calls, ops_done, same_read;
static int call(const char *what, uint64_t max) {
  int k = mips_call(&M, A_BOX, A_STACK + STACK - 64, max);
  guest_steps += M.steps;
  guest_calls++;
  if (k == 2)
    die("%s: %s", what, M.why);
  return k;
}

static const char *const names[G_MAX] = {
    "t1ha2_atonce", "t1ha2_atonce128", "t1ha2_stream64", "t1ha2_stream128",
    "t1ha1_le", "t1ha1_be", "t1ha0_32le", "t1ha0_32be", 0, 0, 0, "t1ha0",
    "t1ha0_resolve()"};
static const int algs[G_MAX] = {M_2_64, M_2_128, M_2S_64, M_2S_128, M_1_LE,
                                M_1_BE, M_0_32LE, M_0_32BE, 0, 0, 0, -1, -1};
static bool has_hi(int id) { return id == G_2_128 || id == G_2S_128; }

void g_setup(void) {}

static void boot(const char *image, unsigned want) {
  mips_load(&M, image);
  mips_perm(&M, A_STACK, STACK, GP_R | GP_W);
  mips_perm(&M, A_BOX, 80, GP_R | GP_W);
  bput(B_OP, 5);
  if (call("boot", 1000000))
    die("boot: %s", M.why);
  uint64_t set = bget(B_RES), aux = bget(B_AUX);
  ctx_size = bget(B_LEN), ctx_align = bget(B_SEED);
  bool m64 = (aux & 255) == 8, big = aux >> 8 & 1;
  if (m64 != M.m64 || big != M.big)
    die("the image does not know its own platform");
  bool t1 = set >> G_1_LE & 1, t2 = set >> G_2_64 & 1;
  for (int i = 0; i < G_MAX; i++) {
    g_targets[i].name = names[i];
    g_targets[i].present = set >> i & 1;
    g_targets[i].alg = algs[i] >= 0 ? algs[i]
                       : m64 && t1  ? (big ? M_1_BE : M_1_LE)
                       : m64 && t2  ? M_2_64
                       : big        ? M_0_32BE
                                    : M_0_32LE;
  }
  if (set != want)
    fail("presence", "functions present %#" PRIx64 ", must be %#x", set, want);
}

/* make exactly what may be read accessible */
static void open_input(uint64_t p, size_t len, bool on) {
  if (!len)
    return;
  uint64_t a = p, b = p + len;
  if (oneshot)
    a &= ~(uint64_t)(PG - 1), b = (b + PG - 1) & ~(uint64_t)(PG - 1);
  mips_perm(&M, a, b - a, on ? GP_R : 0);
}

static void verdict(const char *name, const char *what, uint64_t p, size_t len,
                    uint64_t s, uint64_t s2, const uint8_t *data) {
  fail(name, "%s len=%zu addr=page+%u seed=%#" PRIx64 ",%#" PRIx64
       " data=%s", what, len, (unsigned)(p & (PG - 1)), s, s2,
       hexs(data, len > 80 ? 80 : len));
}

/* DATA is host memory with the input; P is the address in the guest */
static void one(int id, uint64_t p, const uint8_t *data, size_t len,
                uint64_t s, uint64_t s2) {
  /* noise around the input, then the input */
  uint64_t lo = p & ~(uint64_t)(PG - 1);
  rnd_fill(M.mem + lo, p - lo < 64 ? p - lo : 0);
  if (p - lo >= 64)
    rnd_fill(M.mem + p - 64, 64);
  memcpy(M.mem + p, data, len);
  rnd_fill(M.mem + p + len, 64);
  open_input(p, len, true);
  bput(B_OP, 0), bput(B_ID, id), bput(B_DATA, p), bput(B_LEN, len);
  bput(B_SEED, s), bput(B_SEED2, s2);
  bput(B_HI, has_hi(id) ? A_HI : 0), bput(B_RES, 0x1111);
  if (has_hi(id)) {
    mips_put64(&M, A_HI, 0x2222);
    mips_perm(&M, A_HI, 8, GP_R | GP_W);
  }
  rec_case(names[id], data, len, s, s2);
  int k = call(names[id], 20000 + 400 * (uint64_t)len);
  bool all = true;
  if (!k && !oneshot)
    for (size_t i = 0; i < len; i++)
      all &= (M.perm[p + i] & GP_SEEN) != 0;
  open_input(p, len, false);
  mips_perm(&M, A_HI, 8, 0);
  ops_done++;
  char msg[400];
  if (k) {
    snprintf(msg, sizeof(msg), "%s", M.why);
    char key[80];
    snprintf(key, sizeof(key), "%s:access", names[id]);
    verdict(key, msg, p, len, s, s2, data);
    return;
  }
  m_res m = m_hash((enum m_alg)g_targets[id].alg, data, len, s, s2);
  uint64_t got = bget(B_RES), hi = mips_get64(&M, A_HI);
  if (got != m.lo || (has_hi(id) && hi != m.hi)) {
    snprintf(msg, sizeof(msg),
             "got %#" PRIx64 ":%#" PRIx64 " must be %#" PRIx64 ":%#" PRIx64
             " (%s)", got, has_hi(id) ? hi : 0, m.lo, m.hi,
             m_name[g_targets[id].alg]);
    verdict(names[id], msg, p, len, s, s2, data);
  } else if (!all)
    verdict(names[id], "some byte of the input was never read", p, len, s, s2,
            data);
  else
    same_read += !oneshot;
}

static uint8_t D[IN_SIZE];
static uint64_t place(size_t len, unsigned kind, unsigned align) {
  uint64_t mid = A_IN + 16 * PG;
  switch (kind % 4) {
  case 0: /* ends with the page, as exactly as the alignment permits */
    return ((mid + 16 * PG - len - align));
  case 1: /* begins the page */
    return mid + align;
  case 2: /* crosses into the next page with its tail */
    return mid + PG - (len > 8 ? len - 8 + align : align);
  default:
    return mid + 8 * rndn(256) + align;
  }
}

static unsigned n_ids, ids[G_MAX];

static void ph_grid(unsigned amount) {
  for (unsigned rep = 0; rep < amount; rep++)
    for (size_t len = 0; len <= 132 && !enough(); len++)
      for (unsigned align = 0; align < 8; align++)
        for (unsigned kind = 0; kind < 4; kind++) {
          if ((align * 4 + kind + len + rep) % 3 && len > 72)
            continue;
          pattern(D, len, kind < 2 ? 10 : (unsigned)rndn(14));
          uint64_t s = any_seed(), s2 = any_seed();
          for (unsigned i = 0; i < n_ids; i++)
            one(ids[i], place(len, kind, align), D, len, s, s2);
        }
}

static void ph_steer(unsigned amount) {
  for (unsigned k = 0; k < amount && !enough(); k++) {
    int id = ids[rndn(n_ids)];
    size_t len = rndn(4) ? rndn(72) : rndn(400);
    uint64_t s = any_seed();
    rnd_fill(D, len);
    unsigned density = 1 + (unsigned)rndn(3);
    m_steer((enum m_alg)g_targets[id].alg, D, len, s, 0, pick, &density);
    one(id, place(len, (unsigned)rndn(4), (unsigned)rndn(8)), D, len, s,
        0);
  }
  stat_out("carry_boundary_operands", n_carry);
}
static void ph_random(unsigned amount) {
  for (unsigned k = 0; k < amount && !enough(); k++) {
    size_t len = rndn(8) ? rndn(300) : k % 64 ? rndn(5000) : rndn(100000);
    pattern(D, len, (unsigned)rndn(14));
    one(ids[rndn(n_ids)],
        len < 8000 ? place(len, (unsigned)rndn(4), (unsigned)rndn(8))
                   : A_IN + PG + rndn(64),
        D, len, any_seed(), any_seed());
  }
}

static void ph_stream(unsigned amount) {
  if (!ctx_size)
    return;
  for (unsigned k = 0; k < amount && !enough(); k++) {
    uint64_t ctx = A_CTX + 256 + ctx_align * rndn(64 / ctx_align + 3);
    uint64_t s = any_seed(), s2 = any_seed();
    rnd_fill(M.mem + ctx, ctx_size);
    mips_perm(&M, ctx, ctx_size, GP_R | GP_W);
    bput(B_CTX, ctx), bput(B_SEED, s), bput(B_SEED2, s2), bput(B_OP, 1);
    rec_case("t1ha2_init", 0, 0, s, s2);
    int bad = call("init", 10000);
    m_stream ms;
    m_stream_init(&ms, s, s2);
    unsigned n = (unsigned)rndn(12);
    size_t total = 0;
    for (unsigned j = 0; j < n && !bad; j++) {
      size_t len = rndn(3) ? rndn(40) : rndn(4) ? rndn(200) : rndn(5000);
      uint64_t p = place(len, (unsigned)rndn(4), (unsigned)rndn(8));
      pattern(D, len, (unsigned)rndn(14));
      rnd_fill(M.mem + p - 32, 32);
      memcpy(M.mem + p, D, len);
      rnd_fill(M.mem + p + len, 32);
      open_input(p, len, true);
      bput(B_OP, 2), bput(B_DATA, p), bput(B_LEN, len);
      rec_case("t1ha2_update", D, len, s, s2);
      bad = call("update", 20000 + 400 * (uint64_t)len);
      ops_done++;
      open_input(p, len, false);
      m_stream_update(&ms, D, len);
      total += len;
      if (bad)
        verdict("t1ha2_update:access", M.why, p, len, s, s2, D);
    }
    if (bad) {
      if (!n_fails)
        fail("t1ha2_init:access", "%s", M.why);
      continue;
    }
    bool wide = rndn(2);
    uint64_t hi = A_HI + 8 * rndn(4);
    mips_put64(&M, hi, 0x2222);
    if (wide)
      mips_perm(&M, hi, 8, GP_R | GP_W);
    bput(B_OP, 3), bput(B_HI, wide ? hi : 0), bput(B_RES, 0x1111);
    rec_case("t1ha2_final", 0, total, s, s2);
    bad = call("final", 20000);
    ops_done++;
    mips_perm(&M, hi, 8, 0);
    mips_perm(&M, ctx, ctx_size, 0);
    if (bad) {
      fail("t1ha2_final:access", "%s total=%zu", M.why, total);
      continue;
    }
    m_res m = m_stream_final(&ms, wide);
    uint64_t lo = bget(B_RES), h = mips_get64(&M, hi);
    if (lo != m.lo || (wide && h != m.hi))
      fail("t1ha2_stream",
           "%u updates, %zu bytes, wide=%d, seeds %#" PRIx64 ",%#" PRIx64
           ": got %#" PRIx64 ":%#" PRIx64 " must be %#" PRIx64 ":%#" PRIx64,
           n, total, wide, s, s2, lo, wide ? h : 0, m.lo, m.hi);
  }
}

static void ph_selfcheck(void) {
  bput(B_OP, 4);
  rec_case("t1ha_selfcheck__all_enabled", 0, 0, 0, 0);
  /* it hashes data of its own: in the image and on the stack */
  if (call("selfcheck", 200000000))
    fail("selfcheck:access", "%s", M.why);
  else if (!bget(B_AUX))
    die("no self-check in the image");
  else if (bget(B_RES))
    fail("selfcheck", "t1ha_selfcheck__all_enabled() returned %" PRId64,
         (int64_t)bget(B_RES));
  ops_done++;
}

int main(int argc, char **argv) {
  if (argc < 7)
    return 2;
  common_init(argc, argv, 0xC13);
  vals_init();
  boot(argv[1], (unsigned)strtoul(argv[4], 0, 0));
  M.strict = atoi(argv[2]);
  oneshot = atoi(argv[3]);
  for (int i = 0; i < G_MAX; i++)
    if (g_targets[i].present)
      ids[n_ids++] = (unsigned)i;
  if (!n_ids)
    die("no functions");
  unsigned am = (unsigned)atoi(argv[6]);
  switch (argv[5][0]) {
  case 'a':
    ph_selfcheck();
    ph_grid(am);
    ph_steer(3000 * am);
    ph_random(2000 * am);
    ph_stream(1500 * am);
    break;
  case 'q': /* a short one */
    ph_selfcheck();
    ph_steer(600 * am);
    ph_random(600 * am);
    ph_stream(400 * am);
    break;
  default:
    die("phase");
  }
  stat_out("guest_calls", guest_calls);
  stat_out("guest_instructions", guest_steps);
  stat_out("judged_operations", ops_done);
  stat_out("loads_checked", M.loads);
  stat_out("stores_checked", M.stores);
  stat_out("partial_word_accesses", M.partial);
  stat_out("inputs_read_exactly", same_read);
  stat_out("max_distinct_instructions", mips_distinct_ops(&M));
  return 0;
}
