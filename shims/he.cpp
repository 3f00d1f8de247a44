#include <cstdint>
#include <new>
#include "he_api.h"
#ifdef MU
#include "mu_labeled_he.h"
#define F(n) mu_he_##n
#define SETUP mu_he_setup
#else
#include "labeled_he.h"
#define F(n) he_##n
#define SETUP he_keygen
#endif
#include "AsymmetricCryptography/Joye_libert/joye_libert.h"
#define C(x) ((he_ct *)(x))
typedef gmp_randstate_ptr RS;
extern "C" const HeApi MOD = {
  sizeof(he_ct), sizeof(hc128_state),
#ifdef MU
  true,
#else
  false,
#endif
  [](void *c) { new (c) he_ct; }, [](void *c) -> mpz_ptr { return C(c)->a; }, [](void *c) -> mpz_ptr { return C(c)->beta; }, [](void *h, uint8_t *k, uint8_t *v) { hc128_initialize((hc128_state *)h, k, v); },
  [](mpz_ptr N, mpz_ptr y, mpz_ptr p, uint32_t k, uint32_t b) { SETUP(N, y, p, k, b); },
  [](void *c, RS r, void *h, mpz_ptr b, mpz_ptr m, mpz_ptr y, mpz_ptr N, mpz_ptr l, uint32_t k) { F(encrypt)(C(c), r, (hc128_state *)h, b, m, y, N, l, k); },
  [](mpz_ptr a, RS r, void *c1, void *c2, mpz_ptr y, mpz_ptr N, uint32_t k) { F(eval_mult)(a, r, C(c1), C(c2), y, N, k); },
  [](mpz_ptr a, RS r, void *c1, void *c2, void *c3, mpz_ptr x, mpz_ptr z, mpz_ptr w, mpz_ptr y, mpz_ptr N, uint32_t k) { F(eval_mult_3)(a, r, C(c1), C(c2), C(c3), x, z, w, y, N, k); },
  [](void *c, void *c1, void *c2, mpz_ptr N, uint32_t k) { F(eval_add)(C(c), C(c1), C(c2), N, k); }, [](mpz_ptr c, mpz_ptr c1, mpz_ptr c2, mpz_ptr N) { F(eval_add)(c, c1, c2, N); },
  [](void *c, void *c1, void *c2, mpz_ptr N, uint32_t k) { F(eval_sub)(C(c), C(c1), C(c2), N, k); }, [](mpz_ptr c, mpz_ptr c1, mpz_ptr c2, mpz_ptr N) { F(eval_sub)(c, c1, c2, N); },
  [](void *c, void *c1, mpz_ptr a, mpz_ptr N, uint32_t k) { F(eval_cmult)(C(c), C(c1), a, N, k); }, [](mpz_ptr c, mpz_ptr c1, mpz_ptr a, mpz_ptr N) { F(eval_cmult)(c, c1, a, N); },
  [](mpz_ptr m, void *c, mpz_ptr p, mpz_ptr y, uint32_t k) { F(decrypt)(m, C(c), p, y, k); }, [](mpz_ptr m, mpz_ptr c, mpz_ptr b, mpz_ptr p, mpz_ptr y, uint32_t k) { F(decrypt)(m, c, b, p, y, k); },
#ifdef MU
  [](mpz_ptr u, mpz_ptr s, RS r, mpz_ptr N, mpz_ptr y, uint32_t k) { mu_he_keygen(u, s, r, N, y, k); },
#else
  nullptr,
#endif
  [](mpz_ptr N, mpz_ptr y, mpz_ptr p, uint32_t k, uint32_t b) { joye_libert_keygen(N, y, p, k, b); },
  [](mpz_ptr c, RS r, mpz_ptr m, mpz_ptr y, mpz_ptr N, uint32_t k) { joye_libert_encrypt(c, r, m, y, N, k); },
  [](mpz_ptr m, mpz_ptr c, mpz_ptr p, mpz_ptr y, uint32_t k) { joye_libert_decrypt(m, c, p, y, k); },
};
