// GMP helpers for the Joye-Libert and labelled-HE properties.  The library
// creates its own random states; the linker wraps GMP's initialisers so that
// a case can seed them (and a case replays exactly).  What the library leaks
// is released at the end of the case.
#pragma once
#include "pbt.h"
#include "ref.h"
#include <cstdlib>
#include <gmp.h>
#include <string>
#include <unordered_set>
#include <vector>
namespace gx {
inline bool &seeded() { static bool s = false; return s; }
inline uint64_t &seed() { static uint64_t s = 0; return s; }
inline std::unordered_set<void *> &live() { static std::unordered_set<void *> s; return s; }
inline void *al(size_t n) { void *p = malloc(n ? n : 1); if (!p) _Exit(70); live().insert(p); return p; }
inline void *re(void *p, size_t, size_t n) { live().erase(p); void *q = realloc(p, n ? n : 1); if (!q) _Exit(70); live().insert(q); return q; }
inline void fr(void *p, size_t) { live().erase(p); free(p); }
inline void end() { for (void *p : live()) free(p); live().clear(); seeded() = false; }
#ifndef GMPX_PLAIN
struct Setup { Setup() { mp_set_memory_functions(al, re, fr); pbt::end_of_case = end; } };
static Setup setup;
#endif
struct Z {
  mpz_t v; Z() { mpz_init(v); } Z(unsigned long x) { mpz_init_set_ui(v, x); } Z(const Z &o) { mpz_init_set(v, o.v); } ~Z() { mpz_clear(v); } Z &operator=(const Z &o) { mpz_set(v, o.v); return *this; }
  operator mpz_ptr() { return v; } mpz_ptr operator->() { return v; } mpz_srcptr operator->() const { return v; } operator mpz_srcptr() const { return v; }
  bool operator==(const Z &o) const { return !mpz_cmp(v, o.v); } bool operator!=(const Z &o) const { return mpz_cmp(v, o.v); }
  std::string str() const { std::string s(mpz_sizeinbase(v, 16) + 2, 0); mpz_get_str(&s[0], 16, v); s.resize(strlen(s.c_str())); return s.size() > 60 ? s.substr(0, 24) + ".." + std::to_string(mpz_sizeinbase(v, 2)) + "bits" : s; }
};
struct R { gmp_randstate_t s; R(uint64_t x) { bool k = seeded(); if (k) seeded() = false; gmp_randinit_mt(s); if (k) seeded() = true; Z z; mpz_set_ui(z, (unsigned long)x); gmp_randseed(s, z); } ~R() { gmp_randclear(s); } R(const R &) = delete; };
// a number below 2^bits: edges, few set bits, dense, uniform
inline Z num(Choices &c, unsigned bits) {
  Z z, t; mpz_ui_pow_ui(t, 2, bits);
  switch (c.pick({2, 1, 2, 2, 5})) {
    case 0: mpz_set_ui(z, (unsigned long)c.below(4)); break;
    case 1: mpz_sub_ui(z, t, 1 + (unsigned long)c.below(3)); break;
    case 2: mpz_ui_pow_ui(z, 2, (unsigned long)c.below(bits)); if (c.chance(1, 2)) mpz_sub_ui(z, z, 1); break;
    case 3: mpz_set_ui(z, (unsigned long)c.word(2)); break;
    default: { Bytes b((bits + 7) / 8); c.raw(b.data(), b.size()); mpz_import(z, b.size(), 1, 1, 0, 0, b.data()); }
  }
  mpz_mod(z, z, t); return z;
}
struct Key { Z N, y, p, q; unsigned k = 0, bits = 0; };
// a valid key made without the library: p = 1 + 2^k r (r odd), q prime, y a non-residue mod p and mod q
inline Key own_key(Choices &c, unsigned k, unsigned half) {
  Key K; K.k = k; K.bits = 2 * half; R r(c.word(4)); Z e, two; mpz_ui_pow_ui(two, 2, k); unsigned rb = half - k;
  do { mpz_urandomb(e, r.s, rb); mpz_setbit(e, 0); mpz_setbit(e, rb - 1); mpz_mul(K.p, e, two); mpz_add_ui(K.p, K.p, 1); } while (!mpz_probab_prime_p(K.p, 30));
  do { mpz_urandomb(K.q, r.s, half); mpz_setbit(K.q, half - 1); mpz_setbit(K.q, 0); if (c.chance(1, 1)) mpz_setbit(K.q, 1); } while (!mpz_probab_prime_p(K.q, 30) || K.q == K.p);
  mpz_mul(K.N, K.p, K.q); do mpz_urandomm(K.y, r.s, K.N); while (mpz_legendre(K.y, K.p) != -1 || mpz_legendre(K.y, K.q) != -1);
  return K;
}
}
extern "C" {
void __real___gmp_randinit_mt(gmp_randstate_ptr);
void __real___gmp_randinit_default(gmp_randstate_ptr);
#ifdef GMPX_MAIN
static void reseed(gmp_randstate_ptr s) { if (gx::seeded()) { gx::Z z; mpz_set_ui(z, (unsigned long)pbt::splitmix(gx::seed())); gmp_randseed(s, z); } }
void __wrap___gmp_randinit_mt(gmp_randstate_ptr s) { __real___gmp_randinit_mt(s); reseed(s); }
void __wrap___gmp_randinit_default(gmp_randstate_ptr s) { __real___gmp_randinit_default(s); reseed(s); }
#endif
}
using gx::Z; using gx::R; using gx::Key;
