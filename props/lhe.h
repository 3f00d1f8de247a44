#pragma once
#define GMPX_MAIN
#include "gmpx.h"
#include "AsymmetricCryptography/Joye_libert/joye_libert.h"
#ifdef LHE_MU
#include "AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.h"
#define he_keygen mu_he_setup
#define he_encrypt mu_he_encrypt
#define he_eval_mult mu_he_eval_mult
#define he_eval_mult_3 mu_he_eval_mult_3
#define he_eval_add mu_he_eval_add
#define he_eval_sub mu_he_eval_sub
#define he_eval_cmult mu_he_eval_cmult
#define he_decrypt mu_he_decrypt
#else
#include "AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.h"
#endif
#include <cstdlib>
static inline bool &large_space() { static bool b; return b; }   // message spaces of more than 128 bits
static inline Key lhe_key(Choices &c) {
  if (large_space()) { unsigned k = 32 * (unsigned)c.range(5, 17); c.cls(k > 256 ? "message space of more than 256 bits" : "message space of more than 128 bits"); c.say("k=%u", k); return gx::own_key(c, k, k + 40 + (unsigned)c.below(40)); }
  unsigned k = c.chance(3, 5) ? 32 : 32 * (unsigned)c.range(1, 4), half = k + 40 + (unsigned)c.below(40);
  if (c.chance(1, 8)) { Key K; K.k = k; K.bits = 2 * half; gx::seeded() = true; gx::seed() = c.word(4); he_keygen(K.N, K.y, K.p, k, 2 * half); gx::seeded() = false; c.cls("key from the library"); c.say("library key k=%u", k); return K; }
  Key K = gx::own_key(c, k, half); c.say("k=%u N=%s", k, K.N.str().c_str()); return K;
}
struct Mask { hc128_state *cs; Bytes key, iv; Mask(Choices &c, const Bytes &k, const Bytes &v) : key(k), iv(v) { cs = (hc128_state *)malloc(sizeof *cs); if (!cs) _Exit(70); pbt::expand(c.word(2), (uint8_t *)cs, sizeof *cs); init(); } ~Mask() { free(cs); } Mask(const Mask &) = delete; void init() { Bytes k(key), v(iv); hc128_initialize(cs, k.data(), v.data()); } };
struct Ct { he_ct v; Ct() {} ~Ct() { mpz_clear(v.a); mpz_clear(v.beta); } Ct(const Ct &o) { mpz_set(v.a, o.v.a); mpz_set(v.beta, o.v.beta); } Ct &operator=(const Ct &o) { mpz_set(v.a, o.v.a); mpz_set(v.beta, o.v.beta); return *this; } bool same(const Ct &o) const { return !mpz_cmp(v.a, o.v.a) && !mpz_cmp(v.beta, o.v.beta); } };
static inline void lhe_encrypt(Ct &ct, R &rnd, Mask &mk, Z &b, const Z &m, const Key &K, const Z &label) { Z m2(m), y2(K.y), n2(K.N), l2(label); he_encrypt(&ct.v, rnd.s, mk.cs, b, m2, y2, n2, l2, K.k); CHECK(m2 == m && y2 == K.y && n2 == K.N && l2 == label, "encryption changed its arguments"); }
