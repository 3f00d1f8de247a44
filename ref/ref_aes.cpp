#include "ref.h"
#include <cstring>
namespace ref {
static uint8_t SB[256];
static uint32_t TT[4][256];               // column tables, derived below from GF(2^8) arithmetic
static uint8_t xt(uint8_t a) { return (uint8_t)((a << 1) ^ ((a & 0x80) ? 0x1b : 0)); }
static uint8_t gmul(uint8_t a, uint8_t b) { uint8_t r = 0; while (b) { if (b & 1) r ^= a; a = xt(a); b >>= 1; } return r; }
static struct Init {
  Init() {
    for (int i = 0; i < 256; i++) {
      uint8_t inv = 0;
      if (i) for (int j = 1; j < 256; j++) if (gmul((uint8_t)i, (uint8_t)j) == 1) { inv = (uint8_t)j; break; }
      uint8_t s = 0x63;
      for (int b = 0; b < 8; b++) {
        int v = ((inv >> b) ^ (inv >> ((b + 4) & 7)) ^ (inv >> ((b + 5) & 7)) ^ (inv >> ((b + 6) & 7)) ^ (inv >> ((b + 7) & 7))) & 1;
        s ^= (uint8_t)(v << b);
      }
      SB[i] = s;
    }
    static const uint8_t M[4][4] = {{2, 3, 1, 1}, {1, 2, 3, 1}, {1, 1, 2, 3}, {3, 1, 1, 2}};
    for (int row = 0; row < 4; row++)      // contribution of input row `row` to the whole output column
      for (int i = 0; i < 256; i++) {
        uint32_t w = 0;
        for (int o = 0; o < 4; o++) w |= (uint32_t)gmul(SB[i], M[o][row]) << (8 * o);
        TT[row][i] = w;
      }
  }
} init_;
static inline uint32_t rd(const uint8_t *p) { return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24; }
static inline void wr(uint8_t *p, uint32_t v) { p[0] = (uint8_t)v; p[1] = (uint8_t)(v >> 8); p[2] = (uint8_t)(v >> 16); p[3] = (uint8_t)(v >> 24); }
void aes_key(Aes &a, const uint8_t key[16]) {
  uint8_t w[176]; memcpy(w, key, 16); uint8_t rc = 1;
  for (int i = 16; i < 176; i += 4) {
    uint8_t t[4]; memcpy(t, w + i - 4, 4);
    if (i % 16 == 0) { uint8_t x = t[0]; t[0] = SB[t[1]] ^ rc; t[1] = SB[t[2]]; t[2] = SB[t[3]]; t[3] = SB[x]; rc = xt(rc); }
    for (int j = 0; j < 4; j++) w[i + j] = w[i + j - 16] ^ t[j];
  }
  memcpy(a.rk, w, 176);
  for (int r = 0; r < 11; r++) for (int c = 0; c < 4; c++) a.rkw[r][c] = rd(w + 16 * r + 4 * c);
}
static inline void rnd(uint32_t s[4], const uint32_t k[4]) {
  uint32_t o[4];
  for (int c = 0; c < 4; c++)
    o[c] = TT[0][s[c] & 255] ^ TT[1][(s[(c + 1) & 3] >> 8) & 255] ^ TT[2][(s[(c + 2) & 3] >> 16) & 255] ^ TT[3][s[(c + 3) & 3] >> 24] ^ k[c];
  memcpy(s, o, 16);
}
void aes_round(const uint8_t in[16], const uint8_t rk[16], uint8_t out[16]) {
  uint32_t s[4], k[4];
  for (int i = 0; i < 4; i++) { s[i] = rd(in + 4 * i); k[i] = rd(rk + 4 * i); }
  rnd(s, k);
  for (int i = 0; i < 4; i++) wr(out + 4 * i, s[i]);
}
void aes_enc(const Aes &a, const uint8_t in[16], uint8_t out[16], int first) {
  uint32_t s[4];
  for (int i = 0; i < 4; i++) s[i] = rd(in + 4 * i) ^ a.rkw[0][i];
  for (int r = first; r < 10; r++) rnd(s, a.rkw[r]);
  uint8_t st[16], o[16];
  for (int i = 0; i < 4; i++) wr(st + 4 * i, s[i]);
  for (int c = 0; c < 4; c++) for (int r = 0; r < 4; r++) o[4 * c + r] = SB[st[4 * ((c + r) & 3) + r]] ^ a.rk[10][4 * c + r];
  memcpy(out, o, 16);
}
Bytes aes_ctr_block_stream(const uint8_t key[16], const uint8_t nonce[12], uint32_t ctr, size_t n, int first) {
  Aes a; aes_key(a, key);
  Bytes o((n + 15) / 16 * 16);
  uint8_t b[16]; memcpy(b, nonce, 12);
  for (size_t i = 0; i < o.size(); i += 16, ctr++) {
    b[12] = (uint8_t)(ctr >> 24); b[13] = (uint8_t)(ctr >> 16); b[14] = (uint8_t)(ctr >> 8); b[15] = (uint8_t)ctr;
    aes_enc(a, b, &o[i], first);
  }
  o.resize(n); return o;
}
// AEGIS-128: five 128-bit words.
struct Ae { uint32_t s[5][4]; };
static inline void upd(Ae &st, const uint32_t m[4]) {
  uint32_t t[4]; memcpy(t, st.s[4], 16);
  uint32_t n[5][4];
  memcpy(n[0], st.s[4], 16); rnd(n[0], st.s[0]); for (int i = 0; i < 4; i++) n[0][i] ^= m[i];
  for (int k = 1; k < 5; k++) { memcpy(n[k], st.s[k - 1], 16); rnd(n[k], st.s[k]); }
  memcpy(st.s, n, sizeof n);
}
static void ld(uint32_t w[4], const uint8_t *p) { for (int i = 0; i < 4; i++) w[i] = rd(p + 4 * i); }
static void aegis128_run(const uint8_t key[16], const uint8_t iv[16], const uint8_t *ad, size_t adlen, const uint8_t *in, size_t n, uint8_t *out, uint8_t tag[16], bool dec) {
  uint8_t fib[32]; { unsigned a = 0, b = 1; for (int i = 0; i < 32; i++) { fib[i] = (uint8_t)a; unsigned c = (a + b) & 255; a = b; b = c; } }
  uint32_t K[4], V[4], KV[4], c0[4], c1[4];
  ld(K, key); ld(V, iv); ld(c0, fib); ld(c1, fib + 16);
  Ae st;
  for (int i = 0; i < 4; i++) { KV[i] = K[i] ^ V[i]; st.s[0][i] = KV[i]; st.s[1][i] = c1[i]; st.s[2][i] = c0[i]; st.s[3][i] = K[i] ^ c0[i]; st.s[4][i] = K[i] ^ c1[i]; }
  for (int i = 0; i < 5; i++) { upd(st, K); upd(st, KV); }
  uint32_t w[4]; uint8_t b[16];
  for (size_t i = 0; i < adlen; i += 16) {
    size_t k = adlen - i < 16 ? adlen - i : 16;
    memset(b, 0, 16); memcpy(b, ad + i, k); ld(w, b); upd(st, w);
  }
  for (size_t i = 0; i < n; i += 16) {
    size_t k = n - i < 16 ? n - i : 16;
    memset(b, 0, 16); memcpy(b, in + i, k); ld(w, b);
    uint8_t o[16];
    for (int j = 0; j < 4; j++) wr(o + 4 * j, w[j] ^ st.s[1][j] ^ st.s[4][j] ^ (st.s[2][j] & st.s[3][j]));
    memcpy(out + i, o, k);
    if (dec) { memset(o + k, 0, 16 - k); ld(w, o); }      // the plaintext, padded with zeros
    upd(st, w);
  }
  uint64_t A = (uint64_t)adlen * 8, M = (uint64_t)n * 8;
  for (int i = 0; i < 8; i++) { b[i] = (uint8_t)(A >> (8 * i)); b[8 + i] = (uint8_t)(M >> (8 * i)); }
  ld(w, b); for (int j = 0; j < 4; j++) w[j] ^= st.s[3][j];
  for (int i = 0; i < 7; i++) upd(st, w);
  for (int j = 0; j < 4; j++) wr(tag + 4 * j, st.s[0][j] ^ st.s[1][j] ^ st.s[2][j] ^ st.s[3][j] ^ st.s[4][j]);
}
void aegis128_encrypt_p(const uint8_t key[16], const uint8_t iv[16], const uint8_t *ad, size_t adlen, const uint8_t *pt, size_t n, uint8_t *ct, uint8_t tag[16]) { aegis128_run(key, iv, ad, adlen, pt, n, ct, tag, false); }
void aegis128_decrypt_p(const uint8_t key[16], const uint8_t iv[16], const uint8_t *ad, size_t adlen, const uint8_t *ct, size_t n, uint8_t *pt, uint8_t tag[16]) { aegis128_run(key, iv, ad, adlen, ct, n, pt, tag, true); }
void aegis128_decrypt(const uint8_t key[16], const uint8_t iv[16], const Bytes &ad, const Bytes &ct, Bytes &pt, uint8_t tag[16]) { pt.assign(ct.size(), 0); aegis128_run(key, iv, ad.data(), ad.size(), ct.data(), ct.size(), pt.data(), tag, true); }
void aegis128_encrypt(const uint8_t key[16], const uint8_t iv[16], const Bytes &ad, const Bytes &pt, Bytes &ct, uint8_t tag[16]) {
  ct.assign(pt.size(), 0);
  aegis128_encrypt_p(key, iv, ad.data(), ad.size(), pt.data(), pt.size(), ct.data(), tag);
}
}
