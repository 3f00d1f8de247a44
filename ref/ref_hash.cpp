#include "ref.h"
#include <cmath>
#include <cstring>
namespace ref {
static inline uint32_t rr(uint32_t x, int n) { return (x >> n) | (x << (32 - n)); }
static inline uint32_t rl(uint32_t x, int n) { return (x << n) | (x >> (32 - n)); }
// constants are derived: fractional parts of roots of primes (integer arithmetic)
static uint32_t K[64], H0[8], MT[64];
static uint32_t frac_root(unsigned p, int cube) {      // floor(frac(p^(1/cube)) * 2^32)
  unsigned __int128 target = cube == 2 ? (unsigned __int128)p << 64 : 0;
  if (cube == 2) {
    unsigned __int128 lo = 0, hi = (unsigned __int128)1 << 40;
    while (hi - lo > 1) { unsigned __int128 m = (lo + hi) / 2; if (m * m <= target) lo = m; else hi = m; }
    return (uint32_t)lo;
  }
  // m^3 <= p * 2^96, m < 2^36: compare with a 128-bit product carefully
  unsigned __int128 lo = 0, hi = (unsigned __int128)1 << 36;
  while (hi - lo > 1) {
    unsigned __int128 m = (lo + hi) / 2, m2 = m * m;   // m2 < 2^72
    unsigned __int128 q = m2 * m;                      // < 2^108
    if (q <= ((unsigned __int128)p << 96)) lo = m; else hi = m;
  }
  return (uint32_t)lo;
}
static struct HInit {
  HInit() {
    int n = 0;
    for (unsigned p = 2; n < 64; p++) {
      bool pr = true; for (unsigned d = 2; d * d <= p; d++) if (p % d == 0) pr = false;
      if (!pr) continue;
      K[n] = frac_root(p, 3); if (n < 8) H0[n] = frac_root(p, 2);
      n++;
    }
    for (int i = 0; i < 64; i++) MT[i] = (uint32_t)(int64_t)floor(fabs(sin((double)(i + 1))) * 4294967296.0);
  }
} hinit_;
void sha256_init(Sha256 &s) { memcpy(s.h, H0, 32); s.len = 0; }
static void comp(uint32_t h[8], const uint8_t *p) {
  uint32_t w[64];
  for (int i = 0; i < 16; i++) w[i] = (uint32_t)p[4 * i] << 24 | p[4 * i + 1] << 16 | p[4 * i + 2] << 8 | p[4 * i + 3];
  for (int i = 16; i < 64; i++)
    w[i] = w[i - 16] + w[i - 7] + (rr(w[i - 15], 7) ^ rr(w[i - 15], 18) ^ (w[i - 15] >> 3)) + (rr(w[i - 2], 17) ^ rr(w[i - 2], 19) ^ (w[i - 2] >> 10));
  uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4], f = h[5], g = h[6], x = h[7];
  for (int i = 0; i < 64; i++) {
    uint32_t t1 = x + (rr(e, 6) ^ rr(e, 11) ^ rr(e, 25)) + ((e & f) ^ (~e & g)) + K[i] + w[i];
    uint32_t t2 = (rr(a, 2) ^ rr(a, 13) ^ rr(a, 22)) + ((a & b) ^ (a & c) ^ (b & c));
    x = g; g = f; f = e; e = d + t1; d = c; c = b; b = a; a = t1 + t2;
  }
  h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e; h[5] += f; h[6] += g; h[7] += x;
}
void sha256_update(Sha256 &s, const uint8_t *m, size_t n) {
  size_t f = s.len % 64; s.len += n;
  if (f) { size_t k = 64 - f < n ? 64 - f : n; memcpy(s.buf + f, m, k); m += k; n -= k; if (f + k < 64) return; comp(s.h, s.buf); }
  while (n >= 64) { comp(s.h, m); m += 64; n -= 64; }
  if (n) memcpy(s.buf, m, n);
}
void sha256_final(Sha256 &s, uint8_t out[32]) {
  uint64_t bits = s.len * 8; uint8_t pad[72] = {0x80};
  size_t f = s.len % 64, k = (f < 56 ? 56 : 120) - f;
  for (int i = 0; i < 8; i++) pad[k + i] = (uint8_t)(bits >> (56 - 8 * i));
  sha256_update(s, pad, k + 8);
  for (int i = 0; i < 8; i++) for (int j = 0; j < 4; j++) out[4 * i + j] = (uint8_t)(s.h[i] >> (24 - 8 * j));
}
void sha256(const uint8_t *m, size_t n, uint8_t out[32]) { Sha256 s; sha256_init(s); sha256_update(s, m, n); sha256_final(s, out); }
void hmac_sha256(const uint8_t *key, size_t kn, const uint8_t *m, size_t n, uint8_t out[32]) {
  uint8_t k[64] = {0}, p[64], t[32];
  if (kn > 64) sha256(key, kn, k); else if (kn) memcpy(k, key, kn);
  Sha256 s; sha256_init(s);
  for (int i = 0; i < 64; i++) p[i] = k[i] ^ 0x36;
  sha256_update(s, p, 64); sha256_update(s, m, n); sha256_final(s, t);
  sha256_init(s);
  for (int i = 0; i < 64; i++) p[i] = k[i] ^ 0x5c;
  sha256_update(s, p, 64); sha256_update(s, t, 32); sha256_final(s, out);
}
void md5_init(Md5 &s) { s.h[0] = 0x67452301; s.h[1] = 0xefcdab89; s.h[2] = 0x98badcfe; s.h[3] = 0x10325476; s.len = 0; }
static void mcomp(uint32_t h[4], const uint8_t *p) {
  static const int R[4][4] = {{7, 12, 17, 22}, {5, 9, 14, 20}, {4, 11, 16, 23}, {6, 10, 15, 21}};
  uint32_t w[16]; for (int i = 0; i < 16; i++) w[i] = p[4 * i] | p[4 * i + 1] << 8 | p[4 * i + 2] << 16 | (uint32_t)p[4 * i + 3] << 24;
  uint32_t a = h[0], b = h[1], c = h[2], d = h[3];
  for (int i = 0; i < 64; i++) {
    uint32_t f; int g;
    if (i < 16) { f = (b & c) | (~b & d); g = i; }
    else if (i < 32) { f = (d & b) | (~d & c); g = (5 * i + 1) & 15; }
    else if (i < 48) { f = b ^ c ^ d; g = (3 * i + 5) & 15; }
    else { f = c ^ (b | ~d); g = (7 * i) & 15; }
    uint32_t t = d; d = c; c = b; b = b + rl(a + f + MT[i] + w[g], R[i / 16][i & 3]); a = t;
  }
  h[0] += a; h[1] += b; h[2] += c; h[3] += d;
}
void md5_update(Md5 &s, const uint8_t *m, size_t n) {
  size_t f = s.len % 64; s.len += n;
  if (f) { size_t k = 64 - f < n ? 64 - f : n; memcpy(s.buf + f, m, k); m += k; n -= k; if (f + k < 64) return; mcomp(s.h, s.buf); }
  while (n >= 64) { mcomp(s.h, m); m += 64; n -= 64; }
  if (n) memcpy(s.buf, m, n);
}
void md5_final(Md5 &s, uint8_t out[16]) {
  uint64_t bits = s.len * 8; uint8_t pad[72] = {0x80};
  size_t f = s.len % 64, k = (f < 56 ? 56 : 120) - f;
  for (int i = 0; i < 8; i++) pad[k + i] = (uint8_t)(bits >> (8 * i));
  md5_update(s, pad, k + 8);
  for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) out[4 * i + j] = (uint8_t)(s.h[i] >> (8 * j));
}
void md5(const uint8_t *m, size_t n, uint8_t out[16]) { Md5 s; md5_init(s); md5_update(s, m, n); md5_final(s, out); }
// ---- DES, straight from the FIPS 46-3 bit tables
static const uint8_t IP[64] = {58,50,42,34,26,18,10,2,60,52,44,36,28,20,12,4,62,54,46,38,30,22,14,6,64,56,48,40,32,24,16,8,57,49,41,33,25,17,9,1,59,51,43,35,27,19,11,3,61,53,45,37,29,21,13,5,63,55,47,39,31,23,15,7};
static const uint8_t FP[64] = {40,8,48,16,56,24,64,32,39,7,47,15,55,23,63,31,38,6,46,14,54,22,62,30,37,5,45,13,53,21,61,29,36,4,44,12,52,20,60,28,35,3,43,11,51,19,59,27,34,2,42,10,50,18,58,26,33,1,41,9,49,17,57,25};
static const uint8_t E[48] = {32,1,2,3,4,5,4,5,6,7,8,9,8,9,10,11,12,13,12,13,14,15,16,17,16,17,18,19,20,21,20,21,22,23,24,25,24,25,26,27,28,29,28,29,30,31,32,1};
static const uint8_t Pp[32] = {16,7,20,21,29,12,28,17,1,15,23,26,5,18,31,10,2,8,24,14,32,27,3,9,19,13,30,6,22,11,4,25};
static const uint8_t PC1[56] = {57,49,41,33,25,17,9,1,58,50,42,34,26,18,10,2,59,51,43,35,27,19,11,3,60,52,44,36,63,55,47,39,31,23,15,7,62,54,46,38,30,22,14,6,61,53,45,37,29,21,13,5,28,20,12,4};
static const uint8_t PC2[48] = {14,17,11,24,1,5,3,28,15,6,21,10,23,19,12,4,26,8,16,7,27,20,13,2,41,52,31,37,47,55,30,40,51,45,33,48,44,49,39,56,34,53,46,42,50,36,29,32};
static const uint8_t SX[8][64] = {
{14,4,13,1,2,15,11,8,3,10,6,12,5,9,0,7,0,15,7,4,14,2,13,1,10,6,12,11,9,5,3,8,4,1,14,8,13,6,2,11,15,12,9,7,3,10,5,0,15,12,8,2,4,9,1,7,5,11,3,14,10,0,6,13},
{15,1,8,14,6,11,3,4,9,7,2,13,12,0,5,10,3,13,4,7,15,2,8,14,12,0,1,10,6,9,11,5,0,14,7,11,10,4,13,1,5,8,12,6,9,3,2,15,13,8,10,1,3,15,4,2,11,6,7,12,0,5,14,9},
{10,0,9,14,6,3,15,5,1,13,12,7,11,4,2,8,13,7,0,9,3,4,6,10,2,8,5,14,12,11,15,1,13,6,4,9,8,15,3,0,11,1,2,12,5,10,14,7,1,10,13,0,6,9,8,7,4,15,14,3,11,5,2,12},
{7,13,14,3,0,6,9,10,1,2,8,5,11,12,4,15,13,8,11,5,6,15,0,3,4,7,2,12,1,10,14,9,10,6,9,0,12,11,7,13,15,1,3,14,5,2,8,4,3,15,0,6,10,1,13,8,9,4,5,11,12,7,2,14},
{2,12,4,1,7,10,11,6,8,5,3,15,13,0,14,9,14,11,2,12,4,7,13,1,5,0,15,10,3,9,8,6,4,2,1,11,10,13,7,8,15,9,12,5,6,3,0,14,11,8,12,7,1,14,2,13,6,15,0,9,10,4,5,3},
{12,1,10,15,9,2,6,8,0,13,3,4,14,7,5,11,10,15,4,2,7,12,9,5,6,1,13,14,0,11,3,8,9,14,15,5,2,8,12,3,7,0,4,10,1,13,11,6,4,3,2,12,9,5,15,10,11,14,1,7,6,0,8,13},
{4,11,2,14,15,0,8,13,3,12,9,7,5,10,6,1,13,0,11,7,4,9,1,10,14,3,5,12,2,15,8,6,1,4,11,13,12,3,7,14,10,15,6,8,0,5,9,2,6,11,13,8,1,4,10,7,9,5,0,15,14,2,3,12},
{13,2,8,4,6,15,11,1,10,9,3,14,5,0,12,7,1,15,13,8,10,3,7,4,12,5,6,11,0,14,9,2,7,11,4,1,9,12,14,2,0,6,10,13,15,3,5,8,2,1,14,7,4,10,8,13,15,12,9,0,3,5,6,11}};
static uint64_t perm(uint64_t v, int inbits, const uint8_t *t, int n) { uint64_t r = 0; for (int i = 0; i < n; i++) r = r << 1 | ((v >> (inbits - t[i])) & 1); return r; }
static uint64_t be(const uint8_t *p) { uint64_t v = 0; for (int i = 0; i < 8; i++) v = v << 8 | p[i]; return v; }
void des_key(Des &d, const uint8_t key[8]) {
  static const int sh[16] = {1,1,2,2,2,2,2,2,1,2,2,2,2,2,2,1};
  uint64_t k = perm(be(key), 64, PC1, 56); uint32_t C = (uint32_t)(k >> 28), D = (uint32_t)k & 0xfffffff;
  for (int i = 0; i < 16; i++) {
    for (int j = 0; j < sh[i]; j++) { C = ((C << 1) | (C >> 27)) & 0xfffffff; D = ((D << 1) | (D >> 27)) & 0xfffffff; }
    d.k[i] = perm((uint64_t)C << 28 | D, 56, PC2, 48);
  }
}
void des_block(const Des &d, const uint8_t in[8], uint8_t out[8], bool dec) {
  uint64_t v = perm(be(in), 64, IP, 64); uint32_t L = (uint32_t)(v >> 32), R = (uint32_t)v;
  for (int i = 0; i < 16; i++) {
    uint64_t e = perm(R, 32, E, 48) ^ d.k[dec ? 15 - i : i]; uint32_t s = 0;
    for (int b = 0; b < 8; b++) { int x = (int)(e >> (42 - 6 * b)) & 63; s = s << 4 | SX[b][((x & 32) | (x & 1) << 4 | ((x >> 1) & 15)) & 63]; }
    uint32_t f = (uint32_t)perm(s, 32, Pp, 32); uint32_t t = L ^ f; L = R; R = t;
  }
  v = perm((uint64_t)R << 32 | L, 64, FP, 64);
  for (int i = 0; i < 8; i++) out[i] = (uint8_t)(v >> (56 - 8 * i));
}
}
