#include "ref.h"
#include <cstring>
namespace ref {
static inline uint32_t rl(uint32_t x, int n) { return n ? (x << n) | (x >> (32 - n)) : x; }
static inline uint32_t rr(uint32_t x, int n) { return rl(x, 32 - n); }
static inline uint32_t rd(const uint8_t *p) { return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24; }
static inline void wr(uint8_t *p, uint32_t v) { p[0] = (uint8_t)v; p[1] = (uint8_t)(v >> 8); p[2] = (uint8_t)(v >> 16); p[3] = (uint8_t)(v >> 24); }
// ---- ChaCha
static inline void qr(uint32_t x[16], int a, int b, int c, int d) {
  x[a] += x[b]; x[d] = rl(x[d] ^ x[a], 16); x[c] += x[d]; x[b] = rl(x[b] ^ x[c], 12);
  x[a] += x[b]; x[d] = rl(x[d] ^ x[a], 8);  x[c] += x[d]; x[b] = rl(x[b] ^ x[c], 7);
}
void chacha_block(const uint8_t key[32], const uint8_t nonce[12], uint32_t ctr, int rounds, uint8_t out[64]) {
  uint32_t s[16], x[16];
  const char *sig = "expand 32-byte k";
  for (int i = 0; i < 4; i++) s[i] = rd((const uint8_t *)sig + 4 * i);
  for (int i = 0; i < 8; i++) s[4 + i] = rd(key + 4 * i);
  s[12] = ctr;
  for (int i = 0; i < 3; i++) s[13 + i] = rd(nonce + 4 * i);
  memcpy(x, s, 64);
  for (int r = 0; r < rounds; r += 2) {
    for (int i = 0; i < 4; i++) qr(x, i, 4 + i, 8 + i, 12 + i);
    for (int i = 0; i < 4; i++) qr(x, i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4);
  }
  for (int i = 0; i < 16; i++) wr(out + 4 * i, x[i] + s[i]);
}
Bytes chacha_stream(const uint8_t key[32], const uint8_t nonce[12], uint32_t ctr, int rounds, size_t n) {
  Bytes o((n + 63) / 64 * 64);
  for (size_t i = 0; i < o.size(); i += 64) chacha_block(key, nonce, ctr++, rounds, &o[i]);
  o.resize(n); return o;
}
// ---- HC-128
static inline uint32_t f1(uint32_t x) { return rr(x, 7) ^ rr(x, 18) ^ (x >> 3); }
static inline uint32_t f2(uint32_t x) { return rr(x, 17) ^ rr(x, 19) ^ (x >> 10); }
static inline uint32_t g1(uint32_t x, uint32_t y, uint32_t z) { return (rr(x, 10) ^ rr(z, 23)) + rr(y, 8); }
static inline uint32_t g2(uint32_t x, uint32_t y, uint32_t z) { return (rl(x, 10) ^ rl(z, 23)) + rl(y, 8); }
uint32_t hc128_word(Hc128 &s) {
  uint32_t j = s.i & 511, r;
  uint32_t *P = s.P, *Q = s.Q;
#define M(k) ((k) & 511)
  if ((s.i & 1023) < 512) {
    P[j] += g1(P[M(j - 3)], P[M(j - 10)], P[M(j - 511)]);
    uint32_t x = P[M(j - 12)];
    r = (Q[x & 255] + Q[256 + ((x >> 16) & 255)]) ^ P[j];
  } else {
    Q[j] += g2(Q[M(j - 3)], Q[M(j - 10)], Q[M(j - 511)]);
    uint32_t x = Q[M(j - 12)];
    r = (P[x & 255] + P[256 + ((x >> 16) & 255)]) ^ Q[j];
  }
#undef M
  s.i++;
  return r;
}
void hc128_init(Hc128 &s, const uint8_t key[16], const uint8_t iv[16]) {
  static thread_local uint32_t W[1280];
  for (int i = 0; i < 4; i++) { W[i] = W[i + 4] = rd(key + 4 * i); W[i + 8] = W[i + 12] = rd(iv + 4 * i); }
  for (uint32_t i = 16; i < 1280; i++) W[i] = f2(W[i - 2]) + W[i - 7] + f1(W[i - 15]) + W[i - 16] + i;
  memcpy(s.P, W + 256, 2048); memcpy(s.Q, W + 768, 2048);
  s.i = 0;
  uint32_t o[1024];
  // 1024 steps whose outputs replace the table entries
  for (int i = 0; i < 512; i++) { o[i] = hc128_word(s); s.P[i] = o[i]; }
  for (int i = 0; i < 512; i++) { o[i] = hc128_word(s); s.Q[i] = o[i]; }
  s.i = 0;
}
Bytes hc128_stream(const uint8_t key[16], const uint8_t iv[16], size_t n) {
  Hc128 s; hc128_init(s, key, iv);
  Bytes o((n + 3) / 4 * 4);
  for (size_t i = 0; i < o.size(); i += 4) wr(&o[i], hc128_word(s));
  o.resize(n); return o;
}
// ---- Rabbit (RFC 4503)
static uint32_t rg(uint32_t u, uint32_t v) { uint32_t t = u + v; uint64_t q = (uint64_t)t * t; return (uint32_t)q ^ (uint32_t)(q >> 32); }
static void rabbit_next(Rabbit &s) {
  static const uint32_t A[8] = {0x4D34D34D, 0xD34D34D3, 0x34D34D34, 0x4D34D34D, 0xD34D34D3, 0x34D34D34, 0x4D34D34D, 0xD34D34D3};
  for (int i = 0; i < 8; i++) { uint64_t t = (uint64_t)s.C[i] + A[i] + s.b; s.b = (uint32_t)(t >> 32); s.C[i] = (uint32_t)t; }
  uint32_t G[8];
  for (int i = 0; i < 8; i++) G[i] = rg(s.X[i], s.C[i]);
  for (int i = 0; i < 8; i++)
    s.X[i] = (i & 1) ? G[i] + rl(G[(i + 7) & 7], 8) + G[(i + 6) & 7] : G[i] + rl(G[(i + 7) & 7], 16) + rl(G[(i + 6) & 7], 16);
}
void rabbit_key(Rabbit &s, const uint8_t key[16]) {       // key[0] is the most significant octet
  uint16_t k[8];
  for (int i = 0; i < 8; i++) k[i] = (uint16_t)(key[15 - 2 * i] | key[14 - 2 * i] << 8);
  for (int i = 0; i < 8; i++) {
    if (i & 1) { s.X[i] = (uint32_t)k[(i + 5) & 7] << 16 | k[(i + 4) & 7]; s.C[i] = (uint32_t)k[i] << 16 | k[(i + 1) & 7]; }
    else { s.X[i] = (uint32_t)k[(i + 1) & 7] << 16 | k[i]; s.C[i] = (uint32_t)k[(i + 4) & 7] << 16 | k[(i + 5) & 7]; }
  }
  s.b = 0;
  for (int i = 0; i < 4; i++) rabbit_next(s);
  for (int i = 0; i < 8; i++) s.C[i] ^= s.X[(i + 4) & 7];
}
void rabbit_iv(Rabbit &s, const uint8_t iv[8]) {
  uint32_t hi = 0, lo = 0;
  for (int i = 0; i < 4; i++) { hi = hi << 8 | iv[i]; lo = lo << 8 | iv[4 + i]; }
  uint32_t a = lo, c = hi, b = (hi & 0xffff0000u) | (lo >> 16), d = (hi << 16) | (lo & 0xffff);
  for (int i = 0; i < 8; i += 4) { s.C[i] ^= a; s.C[i + 1] ^= b; s.C[i + 2] ^= c; s.C[i + 3] ^= d; }
  for (int i = 0; i < 4; i++) rabbit_next(s);
}
void rabbit_block(Rabbit &s, uint8_t out[16]) {
  rabbit_next(s);
  uint16_t w[8]; uint32_t *X = s.X;
  w[0] = (uint16_t)(X[0] ^ (X[5] >> 16)); w[1] = (uint16_t)((X[0] >> 16) ^ X[3]);
  w[2] = (uint16_t)(X[2] ^ (X[7] >> 16)); w[3] = (uint16_t)((X[2] >> 16) ^ X[5]);
  w[4] = (uint16_t)(X[4] ^ (X[1] >> 16)); w[5] = (uint16_t)((X[4] >> 16) ^ X[7]);
  w[6] = (uint16_t)(X[6] ^ (X[3] >> 16)); w[7] = (uint16_t)((X[6] >> 16) ^ X[1]);
  for (int i = 0; i < 8; i++) { out[15 - 2 * i] = (uint8_t)w[i]; out[14 - 2 * i] = (uint8_t)(w[i] >> 8); }
}
// ---- Serpent: S-boxes as 4-bit permutations, applied column by column
static const uint8_t SS[8][16] = {
  {3, 8, 15, 1, 10, 6, 5, 11, 14, 13, 4, 2, 7, 0, 9, 12}, {15, 12, 2, 7, 9, 0, 5, 10, 1, 11, 14, 8, 6, 13, 3, 4},
  {8, 6, 7, 9, 3, 12, 10, 15, 13, 1, 14, 4, 0, 11, 5, 2}, {0, 15, 11, 8, 12, 9, 6, 3, 13, 1, 2, 4, 10, 7, 5, 14},
  {1, 15, 8, 3, 12, 0, 11, 6, 2, 5, 4, 10, 9, 14, 7, 13}, {15, 5, 2, 11, 4, 10, 9, 12, 0, 3, 14, 8, 13, 6, 7, 1},
  {7, 2, 12, 5, 8, 4, 6, 11, 14, 9, 1, 15, 13, 3, 10, 0}, {1, 13, 15, 0, 14, 8, 2, 11, 7, 4, 12, 10, 9, 3, 5, 6}};
void serpent_sbox(int b, uint32_t w[4]) {
  uint32_t o[4] = {0, 0, 0, 0};
  for (int c = 0; c < 32; c++) {
    int v = (int)(((w[0] >> c) & 1) | ((w[1] >> c) & 1) << 1 | ((w[2] >> c) & 1) << 2 | ((w[3] >> c) & 1) << 3);
    int y = SS[b & 7][v];
    for (int k = 0; k < 4; k++) o[k] |= (uint32_t)((y >> k) & 1) << c;
  }
  memcpy(w, o, 16);
}
static void lt(uint32_t x[4]) {
  x[0] = rl(x[0], 13); x[2] = rl(x[2], 3); x[1] ^= x[0] ^ x[2]; x[3] ^= x[2] ^ (x[0] << 3);
  x[1] = rl(x[1], 1); x[3] = rl(x[3], 7); x[0] ^= x[1] ^ x[3]; x[2] ^= x[3] ^ (x[1] << 7);
  x[0] = rl(x[0], 5); x[2] = rl(x[2], 22);
}
static void allkeys(const uint8_t *key, size_t n, uint32_t *rk, int nk) {
  uint8_t k[32]; memset(k, 0, 32); if (n) memcpy(k, key, n); if (n < 32) k[n] = 1;
  uint32_t w[8 + 132];
  for (int i = 0; i < 8; i++) w[i] = rd(k + 4 * i);
  for (int i = 0; i < 4 * nk; i++) w[8 + i] = rl(w[i] ^ w[i + 3] ^ w[i + 5] ^ w[i + 7] ^ 0x9e3779b9u ^ (uint32_t)i, 11);
  for (int i = 0; i < nk; i++) { memcpy(rk + 4 * i, w + 8 + 4 * i, 16); serpent_sbox((35 - i) & 7, rk + 4 * i); }
}
void serpent_keys(const uint8_t *key, size_t n, uint32_t rk[100]) { allkeys(key, n, rk, 25); }
void serpent24_rounds(const uint32_t rk[100], const uint32_t in[4], uint32_t r12[4], uint32_t r18[4], uint32_t r24[4]) {
  uint32_t x[4]; memcpy(x, in, 16);
  for (int r = 0; r < 24; r++) {
    for (int i = 0; i < 4; i++) x[i] ^= rk[4 * r + i];
    serpent_sbox(r & 7, x); lt(x);
    if (r == 11) memcpy(r12, x, 16);
    if (r == 17) memcpy(r18, x, 16);
  }
  for (int i = 0; i < 4; i++) r24[i] = x[i] ^ rk[96 + i];   // round 24 keeps its linear transform, then K24
}
void serpent_full(const uint8_t *key, size_t n, const uint32_t in[4], uint32_t out[4]) {
  uint32_t rk[132]; allkeys(key, n, rk, 33);
  uint32_t x[4]; memcpy(x, in, 16);
  for (int r = 0; r < 32; r++) {
    for (int i = 0; i < 4; i++) x[i] ^= rk[4 * r + i];
    serpent_sbox(r & 7, x); if (r < 31) lt(x);
  }
  for (int i = 0; i < 4; i++) out[i] = x[i] ^ rk[128 + i];
}
// ---- Sosemanuk
static uint32_t MA[256], MI[256];
static struct SInit {
  SInit() {
    uint8_t e[255]; unsigned x = 1;
    for (int i = 0; i < 255; i++) { e[i] = (uint8_t)x; x <<= 1; if (x & 256) x ^= 0x1a9; }
    int lg[256]; for (int i = 0; i < 255; i++) lg[e[i]] = i;
    for (int i = 1; i < 256; i++) {
      auto m = [&](int k) { return (uint32_t)e[(lg[i] + k) % 255]; };
      MA[i] = m(23) << 24 | m(245) << 16 | m(48) << 8 | m(239);
      MI[i] = m(16) << 24 | m(39) << 16 | m(6) << 8 | m(64);
    }
  }
} sinit_;
void sosemanuk_init(Sosemanuk &s, const uint8_t *key, size_t n, const uint8_t iv[16]) {
  uint32_t rk[100], in[4], a[4], b[4], c[4];
  serpent_keys(key, n, rk);
  for (int i = 0; i < 4; i++) in[i] = rd(iv + 4 * i);
  serpent24_rounds(rk, in, a, b, c);
  // (s7,s8,s9,s10) = Y12 words 3..0 ; (s5,s6) = Y18 words (1,3) ; (s1..s4) = Y24 words 3..0
  s.s[6] = a[3]; s.s[7] = a[2]; s.s[8] = a[1]; s.s[9] = a[0];
  s.r1 = b[0]; s.r2 = b[2]; s.s[4] = b[1]; s.s[5] = b[3];
  s.s[0] = c[3]; s.s[1] = c[2]; s.s[2] = c[1]; s.s[3] = c[0];
}
void sosemanuk_block(Sosemanuk &s, uint8_t out[16]) {
  uint32_t f[4], d[4];
  for (int t = 0; t < 4; t++) {
    uint32_t *z = s.s;                    // z[k] = s_{t+1+k}
    uint32_t nr1 = s.r2 + ((s.r1 & 1) ? z[1] ^ z[8] : z[1]);
    uint32_t nr2 = rl(s.r1 * 0x54655307u, 7);
    s.r1 = nr1; s.r2 = nr2;
    f[t] = (z[9] + s.r1) ^ s.r2;
    d[t] = z[0];
    uint32_t n = z[9] ^ ((z[3] >> 8) ^ MI[z[3] & 255]) ^ ((z[0] << 8) ^ MA[z[0] >> 24]);
    memmove(z, z + 1, 36); z[9] = n;
  }
  serpent_sbox(2, f);
  for (int t = 0; t < 4; t++) wr(out + 4 * t, f[t] ^ d[t]);
}
}
