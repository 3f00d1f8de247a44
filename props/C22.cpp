// Joye-Libert: round trip, homomorphism, structure of ciphertexts.
#define GMPX_MAIN
#include "gmpx.h"
#include "AsymmetricCryptography/Joye_libert/joye_libert.h"
static bool &large_space() { static bool b; return b; }
static Key gen(Choices &c, bool big) {
  if (large_space()) { unsigned k = (unsigned)c.range(129, 540); c.cls("message space of more than 128 bits"); c.say("k=%u", k); return gx::own_key(c, k, k + 40 + (unsigned)c.below(c.chance(1, 4) ? 700 : 100)); }
  unsigned k = big ? (unsigned)c.range(8, 128) : c.chance(1, 3) ? 32 : (unsigned)c.range(1, 64), half = k + 40 + (unsigned)c.below(big ? 130 : 40);
  if (c.chance(1, 6)) { Key K; K.k = k; K.bits = 2 * half; gx::seeded() = true; gx::seed() = c.word(4); joye_libert_keygen(K.N, K.y, K.p, k, 2 * half); gx::seeded() = false; mpz_divexact(K.q, K.N, K.p); c.cls("key from the library"); c.say("library key, k=%u, %u bits", k, 2 * half); return K; }
  Key K = gx::own_key(c, k, half); c.cls("key made by the harness"); c.say("k=%u p=%s N=%s y=%s", k, K.p.str().c_str(), K.N.str().c_str(), K.y.str().c_str()); return K;
}
struct Jl {
  Key K; R rnd; Z mod; Jl(Choices &c, bool big = false) : K(gen(c, big)), rnd(c.word(4)) { mpz_ui_pow_ui(mod, 2, K.k); }
  Z enc(const Z &m) { Z c, m2(m), y2(K.y), n2(K.N); joye_libert_encrypt(c, rnd.s, m2, y2, n2, K.k); CHECK(m2 == m && y2 == K.y && n2 == K.N, "encryption changed its arguments"); return c; }
  Z dec(const Z &c) { Z m, c2(c), p2(K.p), y2(K.y); joye_libert_decrypt(m, c2, p2, y2, K.k); CHECK(c2 == c && y2 == K.y && p2 == K.p, "decryption changed its arguments"); return m; }
  void expect(const Z &ct, const Z &want, const char *what) { Z g = dec(ct); CHECK(g == want, "%s (k=%u, %zu-bit N): decrypted to %s, expected %s", what, K.k, mpz_sizeinbase(K.N, 2), g.str().c_str(), want.str().c_str()); }
};
static void one(Choices &c, Jl &j) {
  Z m = gx::num(c, j.K.k), ct = j.enc(m); c.say("m=%s", m.str().c_str()); c.nontrivial();
  CHECK(mpz_sgn(ct.v) > 0 && mpz_cmp(ct, j.K.N) < 0, "ciphertext outside [1, N)"); j.expect(ct, m, "round trip"); 
  Z ct2 = j.enc(m); CHECK(ct2 != ct, "two encryptions of one message under fresh randomness are equal"); j.expect(ct2, m, "second encryption");
  // c y^-m is a 2^k-th power modulo p and modulo q
  for (const Z *pr : {&j.K.p, &j.K.q}) { Z t, e, g; mpz_powm(t, j.K.y, m, *pr); CHECK(mpz_invert(t, t, *pr), "y not invertible"); mpz_mul(t, t, ct); mpz_mod(t, t, *pr); mpz_sub_ui(e, *pr, 1); mpz_gcd(g, e, j.mod); mpz_divexact(e, e, g); mpz_powm(t, t, e, *pr); CHECK(!mpz_cmp_ui(t, 1), "the ciphertext is not y^m times a 2^k-th power modulo %s (k=%u, m=%s)", pr == &j.K.p ? "p" : "N/p", j.K.k, m.str().c_str()); }
}
PROPERTY(round_trip, 6) { Jl j(c); int n = (int)c.range(1, 4); for (int i = 0; i < n; i++) one(c, j); c.cls(j.K.k < 8 ? "k below 8" : j.K.k == 32 ? "k = 32" : "other k"); }
// ciphertexts built by the harness: y^m x^(2^k) with chosen m and x
PROPERTY(any_ciphertext, 2) { Jl j(c); Z m = gx::num(c, j.K.k), x, ct, t; do { mpz_urandomm(x, j.rnd.s, j.K.N); mpz_gcd(t, x, j.K.N); } while (mpz_cmp_ui(t, 1)); if (c.chance(1, 3)) mpz_set_ui(x, 1 + (unsigned long)c.below(3)); mpz_powm(ct, j.K.y, m, j.K.N); mpz_powm(t, x, j.mod, j.K.N); mpz_mul(ct, ct, t); mpz_mod(ct, ct, j.K.N); c.nontrivial(); c.cls("ciphertext made by the harness"); c.say("m=%s x=%s", m.str().c_str(), x.str().c_str()); j.expect(ct, m, "decryption of y^m x^(2^k)"); }
// all messages of small spaces
PROPERTY(all_messages, 1) { unsigned k = (unsigned)c.range(1, 6); Key K = gx::own_key(c, k, k + 40); c.nontrivial(); c.cls("every message of a small space"); c.say("k=%u", k); R r(c.word(4)); for (unsigned m = 0; m < 1u << k; m++) { Z ct, d, mm(m); joye_libert_encrypt(ct, r.s, mm, K.y, K.N, k); joye_libert_decrypt(d, ct, K.p, K.y, k); CHECK(d == mm, "k=%u: message %u decrypted to %s", k, m, d.str().c_str()); } }
static void program(Choices &c, Jl &j, int steps) {
  std::vector<Z> ct, m; c.nontrivial();
  for (int i = 0; i < steps; i++) {
    Z a, v; size_t x = ct.empty() ? 0 : c.below(ct.size()), y = ct.empty() ? 0 : c.below(ct.size());
    switch (ct.empty() ? 0 : c.pick({3, 4, 3, 3})) {
      case 0: v = gx::num(c, j.K.k); a = j.enc(v); c.say("enc"); break;
      case 1: mpz_mul(a, ct[x], ct[y]); mpz_mod(a, a, j.K.N); mpz_add(v, m[x], m[y]); c.say("c%zu*c%zu", x, y); c.cls("sum"); break;
      case 2: { Z s = gx::num(c, j.K.k); mpz_powm(a, ct[x], s, j.K.N); mpz_mul(v, m[x], s); c.say("c%zu^%s", x, s.str().c_str()); c.cls("scalar multiple"); break; }
      case 3: mpz_invert(a, ct[y], j.K.N); mpz_mul(a, a, ct[x]); mpz_mod(a, a, j.K.N); mpz_sub(v, m[x], m[y]); c.say("c%zu/c%zu", x, y); c.cls("difference"); break;
    }
    mpz_mod(v, v, j.mod); ct.push_back(a); m.push_back(v); char t[60]; snprintf(t, sizeof t, "value %d of the program", i); j.expect(a, v, t);
  }
}
PROPERTY(homomorphism, 5) { Jl j(c); program(c, j, (int)c.range(2, 12)); }
PROPERTY(large, 0) { Jl j(c, true); c.cls("large keys"); for (int i = 0; i < 3; i++) one(c, j); program(c, j, 8); }
PROPERTY(long_program, 0) { Jl j(c); program(c, j, 120); }
PROPERTY(large_space, 0) { large_space() = true; Jl j(c); one(c, j); program(c, j, 6); }
