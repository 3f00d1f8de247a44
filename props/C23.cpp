// Joye-Libert key generation.
#define GMPX_MAIN
#include "gmpx.h"
#include "AsymmetricCryptography/Joye_libert/joye_libert.h"
#include "AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.h"
static Key keygen(Choices &c, unsigned k, unsigned bits) { Key K; K.k = k; K.bits = bits; for (Z *z : {&K.N, &K.y, &K.p}) *z = gx::num(c, 70); if (c.chance(1, 3)) he_keygen(K.N, K.y, K.p, k, bits); else joye_libert_keygen(K.N, K.y, K.p, k, bits); return K; }
static void valid(Choices &c, Key &K) {
  unsigned k = K.k; Z t, two, r; mpz_ui_pow_ui(two, 2, k); char w[120]; snprintf(w, sizeof w, "key generation (k=%u, %u bits, p=%s, N=%s, y=%s)", k, K.bits, K.p.str().c_str(), K.N.str().c_str(), K.y.str().c_str());
  CHECK(mpz_cmp_ui(K.p, 2) > 0 && mpz_probab_prime_p(K.p, 40), "%s: p is not prime", w);
  mpz_mod(t, K.p, two); CHECK(!mpz_cmp_ui(t, 1), "%s: p is not 1 modulo 2^k", w); mpz_sub_ui(r, K.p, 1); mpz_divexact(r, r, two); CHECK(mpz_odd_p(r.v), "%s: (p-1)/2^k is even", w); CHECK(mpz_probab_prime_p(r, 40), "%s: (p-1)/2^k is not prime", w);
  CHECK(mpz_divisible_p(K.N, K.p), "%s: p does not divide N", w); mpz_divexact(K.q, K.N, K.p); CHECK(mpz_cmp_ui(K.q, 2) > 0 && mpz_probab_prime_p(K.q, 40), "%s: N/p is not prime", w); CHECK(mpz_fdiv_ui(K.q, 4) == 3, "%s: N/p is not 3 modulo 4", w); CHECK(K.q != K.p, "%s: N is a square", w);
  size_t h = K.bits / 2, pb = mpz_sizeinbase(K.p, 2), qb = mpz_sizeinbase(K.q, 2), nb = mpz_sizeinbase(K.N, 2);
  CHECK(pb <= h + 1 && qb <= h + 1 && pb + 24 >= h && qb + 24 >= h, "%s: p has %zu bits and N/p %zu", w, pb, qb); CHECK(nb <= K.bits + 1 && nb + 40 >= K.bits, "%s: N has %zu bits", w, nb);
  CHECK(mpz_sgn(K.y.v) > 0 && mpz_cmp(K.y, K.N) < 0, "%s: y outside [1, N)", w); CHECK(mpz_legendre(K.y, K.p) == -1, "%s: y is a quadratic residue modulo p", w); CHECK(mpz_jacobi(K.y, K.N) == 1, "%s: Jacobi symbol of y modulo N is not 1", w);
  R rs(c.word(3)); for (int i = 0; i < 3; i++) { Z m = gx::num(c, k), ct, d; joye_libert_encrypt(ct, rs.s, m, K.y, K.N, k); joye_libert_decrypt(d, ct, K.p, K.y, k); CHECK(d == m, "%s: message %s decrypts to %s", w, m.str().c_str(), d.str().c_str()); }
}
static void gen_params(Choices &c, unsigned &k, unsigned &bits, bool big) { k = c.chance(1, 3) ? 32 : (unsigned)c.range(1, big ? 128 : 64); unsigned half = k + 40 + (unsigned)c.below(big ? 200 : 60); bits = 2 * half; if (c.chance(1, 3)) bits++; }
PROPERTY(one_key, 6) { unsigned k, bits; gen_params(c, k, bits, false); gx::seeded() = true; gx::seed() = c.word(4); c.say("k=%u bits=%u seed=%llx", k, bits, (unsigned long long)gx::seed()); c.nontrivial(); c.cls(k == 32 ? "k = 32" : k < 8 ? "k below 8" : "other k"); Key K = keygen(c, k, bits); valid(c, K); }
// several seeded keys of one size: all valid, all different, sizes right on the whole
PROPERTY(many_keys, 2) {
  unsigned k, bits; gen_params(c, k, bits, false); gx::seeded() = true; gx::seed() = c.word(4); c.nontrivial(); c.cls("eight keys of one size"); c.say("k=%u bits=%u", k, bits); std::vector<Key> v; size_t best_p = 0, best_q = 0, best_n = 0;
  for (int i = 0; i < 8; i++) { Key K = keygen(c, k, bits); valid(c, K); for (auto &o : v) { CHECK(o.p != K.p && o.q != K.q && o.N != K.N, "two keys generated from different randomness share a prime (k=%u, %u bits)", k, bits); CHECK(o.y != K.y, "two keys share y"); } v.push_back(K); best_p = std::max(best_p, mpz_sizeinbase(K.p, 2)); best_q = std::max(best_q, mpz_sizeinbase(K.q, 2)); best_n = std::max(best_n, mpz_sizeinbase(K.N, 2)); }
  CHECK(best_p + 4 >= bits / 2 && best_q + 4 >= bits / 2 && best_n + 9 >= bits, "eight keys of %u bits: the largest p has %zu bits, the largest N/p %zu, the largest N %zu", bits, best_p, best_q, best_n);
}
// keys as a user gets them, with whatever randomness the library takes
PROPERTY(fresh, 1) {
  unsigned k, bits; gen_params(c, k, bits, false); c.nontrivial(); c.cls("keys without a seed"); c.say("k=%u bits=%u twice", k, bits); Key a = keygen(c, k, bits), b = keygen(c, k, bits); valid(c, a); valid(c, b);
  if (a.N == b.N || a.p == b.p || a.q == b.q) throw pbt::Known{"keygen-unseeded"};
}
PROPERTY(large, 0) { unsigned k, bits; gen_params(c, k, bits, true); if (c.chance(1, 2)) bits = 512; if (bits < 2 * k + 80) bits = 2 * k + 80; gx::seeded() = true; gx::seed() = c.word(4); c.nontrivial(); c.cls("large keys"); c.say("k=%u bits=%u", k, bits); Key K = keygen(c, k, bits); valid(c, K); }
// as large as users ask for: short messages in keys of about 1024 bits (the time a 2048-bit key takes is too uneven for a time limit)
PROPERTY(user_size, 0) { unsigned k = c.chance(1, 3) ? 32 : (unsigned)c.range(1, 128), bits = c.chance(1, 3) ? 1024 : (unsigned)c.range(600, 1152); gx::seeded() = true; gx::seed() = c.word(4); c.nontrivial(); c.cls(bits == 1024 ? "1024-bit keys" : "keys of 600 to 1152 bits"); c.say("k=%u bits=%u", k, bits); Key K = keygen(c, k, bits); valid(c, K); }
