#include "model.h"
#include <stdlib.h>
#include <string.h>
#include "golden.h"

#define R64(v, s) (((v) >> (s)) | ((v) << (64 - (s))))
#define R32(v, s) (((v) >> (s)) | ((v) << (32 - (s))))
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

const char *const m_name[M_ALGS] = {
    "t1ha2_atonce", "t1ha2_atonce128", "t1ha2_stream64", "t1ha2_stream128",
    "t1ha1_le",     "t1ha1_be",        "t1ha0_32le",     "t1ha0_32be",
    "ia32aes_a",    "ia32aes_b"};

#define P m_primes
const u64 m_primes[7] = {0xEC99BF0D8372CAABull, 0x82434FE90EDCEF39ull,
                         0xD4F06DB99D67BE4Bull, 0xBD9CACC22C6E9571ull,
                         0x9C06FAF4D023E3ABull, 0xC060724A8424F345ull,
                         0xCB5AF53AE3AAAC31ull};
static const u32 Q[7] = {0x92D78269, 0xCA9B4735, 0xA4ABA1C3, 0xF6499843,
                         0x86F0FD61, 0xCA2DA6FB, 0xC4BB3575};

/* ---- steering state (single threaded, harness only) */
static m_pick_fn st_pick;
static void *st_ctx;

static void put(u8 *p, unsigned n, u64 v, bool be) {
  for (unsigned i = 0; i < n; i++)
    p[be ? n - 1 - i : i] = (u8)(v >> (8 * i));
}

static u64 ld64le(const u8 *p) {
#if __BYTE_ORDER__ == __ORDER_LITTLE_ENDIAN__
  u64 r;
  memcpy(&r, p, 8);
  return r;
#else
  u64 r = 0;
  for (int i = 7; i >= 0; i--)
    r = r << 8 | p[i];
  return r;
#endif
}
static u64 ldn(const u8 *p, unsigned n, bool be) {
#if __BYTE_ORDER__ == __ORDER_LITTLE_ENDIAN__
  if (n == 8) {
    u64 v;
    memcpy(&v, p, 8);
    return be ? __builtin_bswap64(v) : v;
  }
  if (n == 4) {
    u32 v;
    memcpy(&v, p, 4);
    return be ? __builtin_bswap32(v) : v;
  }
#endif
  u64 r = 0;
  for (unsigned i = 0; i < n; i++)
    r = r << 8 | p[be ? i : n - 1 - i];
  return r;
}

/* Fetch a word of n bytes which will be consumed as `base + word`. */
static u64 fetch_add(const u8 *p, unsigned n, bool be, u64 base,
                     unsigned site) {
  if (st_pick) {
    bool use = true;
    u64 want = st_pick(st_ctx, site, &use);
    if (use)
      put((u8 *)p, n, want - base, be);
  }
  return ldn(p, n, be);
}

static void mul128(u64 a, u64 b, u64 *lo, u64 *hi) {
  /* schoolbook with 32-bit limbs, no use of a 128-bit type */
  u64 a0 = (u32)a, a1 = a >> 32, b0 = (u32)b, b1 = b >> 32;
  u64 p00 = a0 * b0, p01 = a0 * b1, p10 = a1 * b0, p11 = a1 * b1;
  u64 mid = (p00 >> 32) + (u32)p01 + (u32)p10;
  *lo = (mid << 32) | (u32)p00;
  *hi = p11 + (p01 >> 32) + (p10 >> 32) + (mid >> 32);
}
static u64 mux(u64 v, u64 p) {
  u64 l, h;
  mul128(v, p, &l, &h);
  return l ^ h;
}
static u64 fin64(u64 a, u64 b) {
  u64 x = (a + R64(b, 41)) * P[0];
  u64 y = (R64(a, 23) + b) * P[6];
  return mux(x ^ y, P[5]);
}
static void mix(u64 *a, u64 *b, u64 v, u64 p) {
  u64 l, h;
  mul128(*b + v, p, &l, &h);
  *a ^= l;
  *b += h;
}

/* the tail of 0..32 bytes over a pair/quad of accumulators */
static void tail_words(const u8 *p, size_t n, u64 *x4[2], u64 *x3[2],
                       u64 *x2[2], u64 *x1[2]) {
  /* xk[0] is xored by the low half, xk[1] is summed with the high half */
  if (n > 24) {
    u64 v = fetch_add(p, 8, false, *x4[1], 4);
    mix(x4[0], x4[1], v, P[4]);
    p += 8, n -= 8;
  }
  if (n > 16) {
    u64 v = fetch_add(p, 8, false, *x3[1], 3);
    mix(x3[0], x3[1], v, P[3]);
    p += 8, n -= 8;
  }
  if (n > 8) {
    u64 v = fetch_add(p, 8, false, *x2[1], 2);
    mix(x2[0], x2[1], v, P[2]);
    p += 8, n -= 8;
  }
  if (n > 0) {
    u64 v = fetch_add(p, (unsigned)n, false, *x1[1], 1);
    mix(x1[0], x1[1], v, P[1]);
  }
}

typedef struct {
  u64 a, b, c, d;
} quad;

static void t2_block(quad *s, const u8 *p) {
  u64 w1 = ld64le(p + 8), w3 = ld64le(p + 24), w2, w0;
  if (st_pick) {
    w2 = ld64le(p + 16);
    fetch_add(p + 0, 8, false, R64(w2 + s->d, 56) + w3, 5);
    bool use = true;
    u64 want = st_pick(st_ctx, 6, &use);
    if (use)
      put((u8 *)p + 8, 8, want - w2 - R64(w3 + s->c, 19), false);
    w1 = ld64le(p + 8);
  }
  w0 = ld64le(p);
  w2 = ld64le(p + 16);
  u64 d02 = w0 + R64(w2 + s->d, 56);
  u64 c13 = w1 + R64(w3 + s->c, 19);
  u64 nd = s->d ^ (s->b + R64(w1, 38));
  u64 nc = s->c ^ (s->a + R64(w0, 57));
  u64 nb = s->b ^ (P[6] * (c13 + w2));
  u64 na = s->a ^ (P[5] * (d02 + w3));
  s->a = na, s->b = nb, s->c = nc, s->d = nd;
}
static void t2_squash(quad *s) {
  s->a ^= P[6] * (s->c + R64(s->d, 23));
  s->b ^= P[5] * (R64(s->c, 19) + s->d);
}
static m_res t2_ab(quad *s, const u8 *p, size_t n) {
  u64 *ab[2] = {&s->a, &s->b}, *ba[2] = {&s->b, &s->a};
  tail_words(p, n, ab, ba, ab, ba);
  return (m_res){fin64(s->a, s->b), 0};
}
static m_res t2_abcd(quad *s, const u8 *p, size_t n) {
  u64 *ad[2] = {&s->a, &s->d}, *ba[2] = {&s->b, &s->a},
      *cb[2] = {&s->c, &s->b}, *dc[2] = {&s->d, &s->c};
  tail_words(p, n, ad, ba, cb, dc);
  u64 a = s->a, b = s->b, c = s->c, d = s->d;
  mix(&a, &b, R64(c, 41) ^ d, P[0]);
  mix(&b, &c, R64(d, 23) ^ a, P[6]);
  mix(&c, &d, R64(a, 19) ^ b, P[5]);
  mix(&d, &a, R64(b, 31) ^ c, P[4]);
  return (m_res){a ^ b, c + d};
}
static void t2_seed(quad *s, u64 x, u64 y) {
  s->a = x;
  s->b = y;
  s->c = R64(y, 23) + ~x;
  s->d = ~y + R64(x, 19);
}

static m_res t2_once(const u8 *p, size_t len, u64 seed, bool wide) {
  quad s;
  t2_seed(&s, seed, (u64)len);
  if (len > 32) {
    size_t blocks = len / 32;
    for (size_t i = 0; i < blocks; i++)
      t2_block(&s, p + i * 32);
    p += blocks * 32;
    len -= blocks * 32;
    if (!wide)
      t2_squash(&s);
  }
  return wide ? t2_abcd(&s, p, len) : t2_ab(&s, p, len);
}

void m_stream_init(m_stream *m, uint64_t x, uint64_t y) {
  quad s;
  t2_seed(&s, x, y);
  memset(m, 0, sizeof(*m));
  m->a = s.a, m->b = s.b, m->c = s.c, m->d = s.d;
}
void m_stream_update(m_stream *m, const void *data, size_t n) {
  const u8 *p = data;
  quad s = {m->a, m->b, m->c, m->d};
  m->total += n;
  while (n) {
    if (m->fill == 0 && n >= 32) {
      t2_block(&s, p);
      p += 32, n -= 32;
      continue;
    }
    size_t k = 32 - m->fill;
    if (k > n)
      k = n;
    memcpy(m->buf + m->fill, p, k);
    m->fill += (unsigned)k;
    p += k, n -= k;
    if (m->fill == 32) {
      t2_block(&s, m->buf);
      m->fill = 0;
    }
  }
  m->a = s.a, m->b = s.b, m->c = s.c, m->d = s.d;
}
m_res m_stream_final(const m_stream *m, bool wide) {
  m_stream t = *m;
  u64 bits = (t.total * 8) ^ 0x8000000000000000ull;
  u8 b[8];
  put(b, 8, bits, false);
  m_pick_fn keep = st_pick;
  st_pick = NULL;
  m_stream_update(&t, b, 8);
  quad s = {t.a, t.b, t.c, t.d};
  m_res r;
  if (wide)
    r = t2_abcd(&s, t.buf, t.fill);
  else {
    t2_squash(&s);
    r = t2_ab(&s, t.buf, t.fill);
  }
  st_pick = keep;
  return r;
}

static u64 t1_hash(const u8 *p, size_t len, u64 seed, bool be) {
  u64 a = seed, b = (u64)len;
  if (len > 32) {
    u64 c = R64((u64)len, 17) + seed, d = (u64)len ^ R64(seed, 17);
    while (len >= 32) {
      u64 w2 = ldn(p + 16, 8, be), w3 = ldn(p + 24, 8, be);
      u64 w1, w0;
      if (st_pick) {
        bool use = true;
        u64 want = st_pick(st_ctx, 5, &use);
        if (use) /* (w0 ^ rot(w2+d)) + w3 == want */
          put((u8 *)p, 8, (want - w3) ^ R64(w2 + d, 17), be);
        use = true;
        want = st_pick(st_ctx, 6, &use);
        if (use)
          put((u8 *)p + 8, 8, (want - w2) ^ R64(w3 + c, 17), be);
      }
      w0 = ldn(p, 8, be);
      w1 = ldn(p + 8, 8, be);
      u64 d02 = w0 ^ R64(w2 + d, 17);
      u64 c13 = w1 ^ R64(w3 + c, 17);
      d -= b ^ R64(w1, 31);
      c += a ^ R64(w0, 41);
      b ^= P[0] * (c13 + w2);
      a ^= P[1] * (d02 + w3);
      p += 32, len -= 32;
    }
    a ^= P[6] * (R64(c, 17) + d);
    b ^= P[5] * (c + R64(d, 17));
  }
  if (len > 24) {
    b += mux(fetch_add(p, 8, be, 0, 4), P[4]);
    p += 8, len -= 8;
  }
  if (len > 16) {
    a += mux(fetch_add(p, 8, be, 0, 3), P[3]);
    p += 8, len -= 8;
  }
  if (len > 8) {
    b += mux(fetch_add(p, 8, be, 0, 2), P[2]);
    p += 8, len -= 8;
  }
  if (len > 0)
    a += mux(fetch_add(p, (unsigned)len, be, 0, 1), P[1]);
  u64 m = (a ^ b) * P[0];
  return mux(R64(a + b, 17), P[4]) + (m ^ R64(m, 41));
}

static void mix32(u32 *a, u32 *b, u32 v, u32 p) {
  u64 l = (u64)(u32)(*b + v) * p;
  *a ^= (u32)l;
  *b += (u32)(l >> 32);
}
static u64 t0_hash(const u8 *p, size_t len, u64 seed, bool be) {
  u32 l32 = (u32)len;
  u32 a = R32(l32, 17) + (u32)seed;
  u32 b = l32 ^ (u32)(seed >> 32);
  if (len > 16) {
    u32 c = ~a, d = R32(b, 5);
    while (len >= 16) {
      u32 w2 = (u32)ldn(p + 8, 4, be), w3 = (u32)ldn(p + 12, 4, be);
      if (st_pick) {
        bool use = true;
        u32 want = (u32)st_pick(st_ctx, 5, &use);
        if (use) /* (w1 + rot(w3+d)) ^ w2 == want */
          put((u8 *)p + 4, 4, (want ^ w2) - R32(w3 + d, 17), be);
        use = true;
        want = (u32)st_pick(st_ctx, 6, &use);
        if (use) /* (w0 ^ rot(w2+c)) + w3 == want */
          put((u8 *)p, 4, (want - w3) ^ R32(w2 + c, 11), be);
      }
      u32 w0 = (u32)ldn(p, 4, be), w1 = (u32)ldn(p + 4, 4, be);
      u32 d13 = w1 + R32(w3 + d, 17);
      u32 c02 = w0 ^ R32(w2 + c, 11);
      d ^= R32(a + w0, 3);
      c ^= R32(b + w1, 7);
      b = Q[1] * (c02 + w3);
      a = Q[0] * (d13 ^ w2);
      p += 16, len -= 16;
    }
    c += a;
    d += b;
    a ^= Q[6] * (R32(c, 16) + d);
    b ^= Q[5] * (c + R32(d, 16));
  }
  if (len > 12) {
    mix32(&a, &b, (u32)fetch_add(p, 4, be, b, 4), Q[4]);
    p += 4, len -= 4;
  }
  if (len > 8) {
    mix32(&b, &a, (u32)fetch_add(p, 4, be, a, 3), Q[3]);
    p += 4, len -= 4;
  }
  if (len > 4) {
    mix32(&a, &b, (u32)fetch_add(p, 4, be, b, 2), Q[2]);
    p += 4, len -= 4;
  }
  if (len > 0)
    mix32(&b, &a, (u32)fetch_add(p, (unsigned)len, be, a, 1), Q[1]);
  u64 l = (b ^ R32(a, 13)) | (u64)a << 32;
  l *= P[0];
  l ^= l >> 41;
  l *= P[4];
  l ^= l >> 47;
  l *= P[6];
  return l;
}

/* ---------------------------------------------------------------- AES */
static u8 sbox[256], isbox[256];
static u32 te[4][256], td[4][256];
static bool aes_ready;
static u8 gmul(u8 a, u8 b) {
  u8 r = 0;
  while (b) {
    if (b & 1)
      r ^= a;
    a = (u8)(a << 1) ^ (a & 0x80 ? 0x1b : 0);
    b >>= 1;
  }
  return r;
}
static void aes_setup(void) {
  for (int i = 0; i < 256; i++) {
    u8 inv = 0;
    for (int j = 1; j < 256 && i; j++)
      if (gmul((u8)i, (u8)j) == 1) {
        inv = (u8)j;
        break;
      }
    u8 s = inv, x = inv;
    for (int k = 0; k < 4; k++) {
      x = (u8)(x << 1 | x >> 7);
      s ^= x;
    }
    s ^= 0x63;
    sbox[i] = s;
    isbox[s] = (u8)i;
  }
  for (int i = 0; i < 256; i++) {
    u8 s = sbox[i], v = isbox[i];
    static const u8 ec[4] = {2, 1, 1, 3}, dc[4] = {14, 9, 13, 11};
    for (int r = 0; r < 4; r++) {
      u32 e = 0, d = 0;
      for (int k = 0; k < 4; k++) {
        e |= (u32)gmul(s, ec[(k - r) & 3]) << (8 * k);
        d |= (u32)gmul(v, dc[(k - r) & 3]) << (8 * k);
      }
      te[r][i] = e;
      td[r][i] = d;
    }
  }
  aes_ready = true;
}
typedef struct {
  u64 q[2];
} x128;
#define BYTE(x, i) ((u8)((x).q[(i) >> 3] >> (8 * ((i)&7))))
static x128 aes_enc(x128 s, x128 k) {
  u32 c[4];
  for (int j = 0; j < 4; j++)
    c[j] = te[0][BYTE(s, 4 * j)] ^ te[1][BYTE(s, (4 * j + 5) & 15)] ^
           te[2][BYTE(s, (4 * j + 10) & 15)] ^
           te[3][BYTE(s, (4 * j + 15) & 15)];
  return (x128){{(c[0] | (u64)c[1] << 32) ^ k.q[0],
                 (c[2] | (u64)c[3] << 32) ^ k.q[1]}};
}
static x128 aes_dec(x128 s, x128 k) {
  u32 c[4];
  for (int j = 0; j < 4; j++)
    c[j] = td[0][BYTE(s, 4 * j)] ^ td[1][BYTE(s, (4 * j + 13) & 15)] ^
           td[2][BYTE(s, (4 * j + 10) & 15)] ^
           td[3][BYTE(s, (4 * j + 7) & 15)];
  return (x128){{(c[0] | (u64)c[1] << 32) ^ k.q[0],
                 (c[2] | (u64)c[3] << 32) ^ k.q[1]}};
}
static x128 xl(const u8 *p) { return (x128){{ld64le(p), ld64le(p + 8)}}; }
static x128 xadd(x128 a, x128 b) {
  return (x128){{a.q[0] + b.q[0], a.q[1] + b.q[1]}};
}
static x128 xsub(x128 a, x128 b) {
  return (x128){{a.q[0] - b.q[0], a.q[1] - b.q[1]}};
}
static x128 xxor(x128 a, x128 b) {
  return (x128){{a.q[0] ^ b.q[0], a.q[1] ^ b.q[1]}};
}

static void aes_pair(x128 *x, x128 *y, const u8 *p) {
  x128 v0 = xadd(*y, xl(p)), v1 = xsub(*x, xl(p + 16));
  *x = aes_dec(*x, v0);
  *y = aes_dec(*y, v1);
}
static u64 aes_tail(x128 x, x128 y, const u8 *p, size_t n, bool bulk, u64 seed,
                    u64 len) {
  u64 a = seed, b = len;
  if (bulk) {
    x = xadd(aes_dec(x, aes_enc(y, x)), y);
    a = x.q[0];
    b = x.q[1];
  }
  u64 *ab[2] = {&a, &b}, *ba[2] = {&b, &a};
  tail_words(p, n, ab, ba, ab, ba);
  return fin64(a, b);
}
static u64 aes_a(const u8 *p, size_t len, u64 seed) {
  x128 x = {{(u64)len, seed}}, y = x;
  size_t n = len;
  bool bulk = len > 32;
  if (bulk) {
    y = aes_enc(x, (x128){{P[6], P[5]}});
    for (; n >= 128; p += 128, n -= 128) {
      x128 v[8];
      for (int i = 0; i < 8; i++)
        v[i] = xl(p + 16 * i);
      x128 v0y = aes_enc(v[0], y);
      x128 v2x6 = aes_enc(v[2], xxor(x, v[6]));
      x128 v45_67 = xxor(aes_enc(v[4], v[5]), xadd(v[6], v[7]));
      x128 v0y7_1 = aes_dec(xsub(v[7], v0y), v[1]);
      x128 v2x6_3 = aes_enc(v2x6, v[3]);
      x = aes_enc(v45_67, xadd(x, y));
      y = aes_enc(v2x6_3, xxor(v0y7_1, v[5]));
    }
    if (n >= 64) {
      aes_pair(&x, &y, p);
      aes_pair(&x, &y, p + 32);
      p += 64, n -= 64;
    }
    if (n >= 32) {
      aes_pair(&x, &y, p);
      p += 32, n -= 32;
    }
    if (n >= 16) {
      y = xadd(x, y);
      x = aes_dec(x, xl(p));
      p += 16, n -= 16;
    }
  }
  return aes_tail(x, y, p, n, bulk, seed, (u64)len);
}
static u64 aes_b(const u8 *p, size_t len, u64 seed) {
  x128 x = {{(u64)len, seed}}, y = x;
  size_t n = len;
  bool bulk = len > 32;
  if (bulk) {
    y = aes_enc(x, (x128){{P[1], P[0]}});
    size_t q = n / 16; /* whole 16-byte words */
    n -= q * 16;
    if (q & 1) {
      x = xadd(x, xl(p));
      y = aes_enc(x, y);
      p += 16, q--;
    }
    x128 salt = y;
    while (q >= 8) {
      x128 t = aes_enc(xl(p), salt);
      for (int i = 1; i < 8; i++)
        t = aes_dec(t, xl(p + 16 * i));
      salt = xadd(salt, (x128){{P[6], P[5]}});
      t = aes_enc(x, t);
      x = xadd(y, x);
      y = t;
      p += 128, q -= 8;
    }
    for (; q >= 2; q -= 2, p += 32)
      aes_pair(&x, &y, p);
  }
  return aes_tail(x, y, p, n, bulk, seed, (u64)len);
}

m_res m_hash(enum m_alg alg, const void *data, size_t len, uint64_t seed,
             uint64_t seed2) {
  const u8 *p = data;
  if (!aes_ready)
    aes_setup();
  m_res r = {0, 0};
  switch (alg) {
  case M_2_64:
    return t2_once(p, len, seed, false);
  case M_2_128:
    return t2_once(p, len, seed, true);
  case M_2S_64:
  case M_2S_128: {
    m_stream s;
    m_stream_init(&s, seed, seed2);
    m_stream_update(&s, p, len);
    return m_stream_final(&s, alg == M_2S_128);
  }
  case M_1_LE:
  case M_1_BE:
    r.lo = t1_hash(p, len, seed, alg == M_1_BE);
    return r;
  case M_0_32LE:
  case M_0_32BE:
    r.lo = t0_hash(p, len, seed, alg == M_0_32BE);
    return r;
  case M_AES_A:
    r.lo = aes_a(p, len, seed);
    return r;
  case M_AES_B:
    r.lo = aes_b(p, len, seed);
    return r;
  default:
    abort();
  }
}

void m_steer(enum m_alg alg, uint8_t *data, size_t len, uint64_t seed,
             uint64_t seed2, m_pick_fn pick, void *ctx) {
  st_pick = pick;
  st_ctx = ctx;
  (void)m_hash(alg, data, len, seed, seed2);
  st_pick = NULL;
}

/* ---------------------------------------------------------- validation */
m_vec m_vectors[81];
static const u8 pat64[64] = {
    0,    1,    2,    3,    4,    5,    6,    7,    0xFF, 0x7F, 0x3F,
    0x1F, 0xF,  8,    16,   32,   64,   0x80, 0xFE, 0xFC, 0xF8, 0xF0,
    0xE0, 0xC0, 0xFD, 0xFB, 0xF7, 0xEF, 0xDF, 0xBF, 0x55, 0xAA, 11,
    17,   19,   23,   29,   37,   42,   43,   'a',  'b',  'c',  'd',
    'e',  'f',  'g',  'h',  'i',  'j',  'k',  'l',  'm',  'n',  'o',
    'p',  'q',  'r',  's',  't',  'u',  'v',  'w',  'x'};
static u8 patlong[512];
const uint64_t *const m_golden[M_ALGS] = {
    g_2atonce, g_2atonce128, g_2stream,   g_2stream128, g_64le,
    g_64be,    g_32le,       g_32be,      g_ia32aes_a,  g_ia32aes_b};

int m_validate(void) {
  for (int i = 0; i < 512; i++)
    patlong[i] = (u8)i;
  int k = 0;
  m_vectors[k++] = (m_vec){pat64, 0, 0};
  m_vectors[k++] = (m_vec){pat64, 0, ~(u64)0};
  m_vectors[k++] = (m_vec){pat64, 64, 0};
  for (int i = 1; i < 64; i++)
    m_vectors[k++] = (m_vec){pat64, (size_t)i, (u64)1 << (i - 1)};
  for (int i = 1; i <= 7; i++)
    m_vectors[k++] = (m_vec){pat64 + i, (size_t)(64 - i), ~(u64)0 << i};
  for (int i = 0; i <= 7; i++)
    m_vectors[k++] = (m_vec){patlong + i, (size_t)(128 + i * 17), ~(u64)0 << 7};
  if (k != 81)
    return -1;
  for (int a = 0; a < M_ALGS; a++)
    for (int i = 0; i < 81; i++) {
      const m_vec *v = &m_vectors[i];
      m_res r = m_hash((enum m_alg)a, v->data, v->len, v->seed, v->seed);
      if (r.lo != m_golden[a][i])
        return 1000 * (a + 1) + i;
    }
  return 0;
}
