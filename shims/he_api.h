// The public-key functions (Joye-Libert, labelled HE, multi-user labelled HE)
// behind pointers, so that both labelled variants fit in one program.
#pragma once
#include <cstddef>
#include <cstdint>
#include <gmp.h>
struct HeApi {
  size_t ct, hc; bool mu;
  void (*ct_init)(void *); mpz_ptr (*ct_a)(void *); mpz_ptr (*ct_beta)(void *); void (*hc_init)(void *, uint8_t *key, uint8_t *iv);
  void (*keygen)(mpz_ptr N, mpz_ptr y, mpz_ptr p, uint32_t k, uint32_t bits);
  void (*enc)(void *c, gmp_randstate_ptr, void *hc, mpz_ptr b, mpz_ptr m, mpz_ptr y, mpz_ptr N, mpz_ptr label, uint32_t k);
  void (*mult)(mpz_ptr alpha, gmp_randstate_ptr, void *c1, void *c2, mpz_ptr y, mpz_ptr N, uint32_t k);
  void (*mult3)(mpz_ptr alpha, gmp_randstate_ptr, void *c1, void *c2, void *c3, mpz_ptr b12, mpz_ptr b13, mpz_ptr b23, mpz_ptr y, mpz_ptr N, uint32_t k);
  void (*add1)(void *c, void *c1, void *c2, mpz_ptr N, uint32_t k); void (*add2)(mpz_ptr c, mpz_ptr c1, mpz_ptr c2, mpz_ptr N);
  void (*sub1)(void *c, void *c1, void *c2, mpz_ptr N, uint32_t k); void (*sub2)(mpz_ptr c, mpz_ptr c1, mpz_ptr c2, mpz_ptr N);
  void (*cmult1)(void *c, void *c1, mpz_ptr a, mpz_ptr N, uint32_t k); void (*cmult2)(mpz_ptr c, mpz_ptr c1, mpz_ptr a, mpz_ptr N);
  void (*dec1)(mpz_ptr m, void *c, mpz_ptr p, mpz_ptr y, uint32_t k); void (*dec2)(mpz_ptr m, mpz_ptr c, mpz_ptr b, mpz_ptr p, mpz_ptr y, uint32_t k);
  void (*user)(mpz_ptr upk, mpz_ptr usk, gmp_randstate_ptr, mpz_ptr N, mpz_ptr y, uint32_t k);
  void (*jl_keygen)(mpz_ptr N, mpz_ptr y, mpz_ptr p, uint32_t k, uint32_t bits);
  void (*jl_enc)(mpz_ptr c, gmp_randstate_ptr, mpz_ptr m, mpz_ptr y, mpz_ptr N, uint32_t k);
  void (*jl_dec)(mpz_ptr m, mpz_ptr c, mpz_ptr p, mpz_ptr y, uint32_t k);
};
