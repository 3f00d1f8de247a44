// Multi-user labelled homomorphic encryption: users share one public key, each
// has a masking key; programs mix the ciphertexts of several users.
#define LHE_MU
#include "lhe.h"
#include <memory>
struct Val { Ct ct; Z m, b; };
struct Alpha { Z a, m, b; };
struct User { std::unique_ptr<Mask> mk; Bytes key, iv; std::vector<Z> labels; };
struct World {
  Key K; R rnd; Z mod; std::vector<User> u; std::vector<Val> f; std::vector<Alpha> g;
  World(Choices &c) : K(lhe_key(c)), rnd(c.word(4)) { mpz_ui_pow_ui(mod, 2, K.k); size_t n = 1 + c.below(4); c.say("%zu users", n); c.cls(n > 1 ? "several users" : "one user"); for (size_t i = 0; i < n; i++) { User x; x.key = c.keylike(16); x.key[0] ^= (uint8_t)i; x.iv = c.keylike(16); x.mk.reset(new Mask(c, x.key, x.iv)); u.push_back(std::move(x)); } }
  Z red(const Z &x) { Z r; mpz_mod(r, x, mod); return r; }
  Z mul(const Z &x, const Z &y) { Z r; mpz_mul(r, x, y); return red(r); } Z add(const Z &x, const Z &y) { Z r; mpz_add(r, x, y); return red(r); } Z sub(const Z &x, const Z &y) { Z r; mpz_sub(r, x, y); return red(r); }
  void dec1(const Val &d, const char *what) { Z g; Ct before(d.ct); he_decrypt(g, &d.ct.v, K.p, K.y, K.k); CHECK(g == d.m, "%s (k=%u): decrypted to %s, expected %s", what, K.k, g.str().c_str(), d.m.str().c_str()); CHECK(before.same(d.ct), "decryption changed the ciphertext"); }
  void dec2(const Alpha &d, const char *what) { Z g, a(d.a), b(d.b); he_decrypt(g, a, b, K.p, K.y, K.k); CHECK(g == d.m, "%s (k=%u): decrypted to %s, expected %s", what, K.k, g.str().c_str(), d.m.str().c_str()); CHECK(a == d.a && b == d.b, "decryption changed its operands"); }
  void fresh(Choices &c) {
    size_t i = c.below(u.size()); Val d; Z l = gx::num(c, c.chance(1, 3) ? (unsigned)c.range(1, K.k) : K.k); for (auto &o : u[i].labels) if (o == l) mpz_set_ui(l, (unsigned long)u[i].labels.size() + 1000); d.m = gx::num(c, K.k); c.say("user %zu: enc(m=%s, label=%s)", i, d.m.str().c_str(), l.str().c_str());
    lhe_encrypt(d.ct, rnd, *u[i].mk, d.b, d.m, K, l); CHECK(mpz_sgn(d.b.v) >= 0 && mpz_cmp(d.b, mod) < 0, "mask outside the message space"); Z s; mpz_add(s, d.ct.v.a, d.b); CHECK(red(s) == d.m, "first component plus mask is not the message (k=%u)", K.k); Z bd; joye_libert_decrypt(bd, d.ct.v.beta, K.p, K.y, K.k); CHECK(bd == d.b, "second component does not encrypt the mask");
    // the same position of a context of this user with other leftovers, used for other messages with the same labels, gives the same mask
    { Mask again(c, u[i].key, u[i].iv); Z b; for (auto &o : u[i].labels) { Ct t; Z bo; lhe_encrypt(t, rnd, again, bo, gx::num(c, 8), K, o); } uint64_t paint = c.word(2) * 0x9e3779b97f4a7c15ull; if (paint) pbt::paint_stack(paint); Ct t; lhe_encrypt(t, rnd, again, b, gx::num(c, K.k), K, l); CHECK(b == d.b, "label %s gets mask %s once and %s once", l.str().c_str(), d.b.str().c_str(), b.str().c_str()); }
    u[i].labels.push_back(l); f.push_back(d); dec1(f.back(), "fresh ciphertext");
  }
  void step(Choices &c) {
    if (f.size() < 2) { fresh(c); return; }
    size_t x = c.below(f.size()), y = c.below(f.size()), z = c.below(f.size()); Key k0(K); std::vector<Val> f0(f); std::vector<Alpha> g0(g);
    switch (c.pick({4, 2, 2, 2, 5, (unsigned)(g.empty() ? 0 : 2), (unsigned)(g.empty() ? 0 : 2), (unsigned)(g.empty() ? 0 : 2), 1})) {
      case 0: fresh(c); break;
      case 1: { Val d; he_eval_add(&d.ct.v, &f[x].ct.v, &f[y].ct.v, K.N, K.k); d.m = add(f[x].m, f[y].m); d.b = add(f[x].b, f[y].b); c.say("x%zu+x%zu", x, y); c.cls("sum"); dec1(d, "sum"); f.push_back(d); break; }
      case 2: { Val d; he_eval_sub(&d.ct.v, &f[x].ct.v, &f[y].ct.v, K.N, K.k); d.m = sub(f[x].m, f[y].m); d.b = sub(f[x].b, f[y].b); c.say("x%zu-x%zu", x, y); c.cls("difference"); dec1(d, "difference"); f.push_back(d); break; }
      case 3: { Val d; Z s = gx::num(c, K.k); he_eval_cmult(&d.ct.v, &f[x].ct.v, s, K.N, K.k); d.m = mul(f[x].m, s); d.b = mul(f[x].b, s); c.say("%s*x%zu", s.str().c_str(), x); c.cls("scalar multiple"); dec1(d, "scalar multiple"); f.push_back(d); break; }
      case 4: { Alpha d; he_eval_mult(d.a, rnd.s, &f[x].ct.v, &f[y].ct.v, K.y, K.N, K.k); d.m = mul(f[x].m, f[y].m); d.b = mul(f[x].b, f[y].b); c.say("x%zu*x%zu", x, y); c.cls("product"); dec2(d, "product"); g.push_back(d); break; }
      case 5: { size_t s = c.below(g.size()), t = c.below(g.size()); Alpha d; he_eval_add(d.a, g[s].a, g[t].a, K.N); d.m = add(g[s].m, g[t].m); d.b = add(g[s].b, g[t].b); c.say("y%zu+y%zu", s, t); c.cls("sum of products"); dec2(d, "sum of products"); g.push_back(d); break; }
      case 6: { size_t s = c.below(g.size()), t = c.below(g.size()); Alpha d; he_eval_sub(d.a, g[s].a, g[t].a, K.N); d.m = sub(g[s].m, g[t].m); d.b = sub(g[s].b, g[t].b); c.say("y%zu-y%zu", s, t); c.cls("difference of products"); dec2(d, "difference of products"); g.push_back(d); break; }
      case 7: { size_t s = c.below(g.size()); Alpha d; Z k = gx::num(c, K.k); he_eval_cmult(d.a, g[s].a, k, K.N); d.m = mul(g[s].m, k); d.b = mul(g[s].b, k); c.say("%s*y%zu", k.str().c_str(), s); c.cls("scalar multiple of a product"); dec2(d, "scalar multiple of a product"); g.push_back(d); break; }
      case 8: { Z b12, b13, b23; joye_libert_encrypt(b12, rnd.s, mul(f[x].b, f[y].b), K.y, K.N, K.k); joye_libert_encrypt(b13, rnd.s, mul(f[x].b, f[z].b), K.y, K.N, K.k); joye_libert_encrypt(b23, rnd.s, mul(f[y].b, f[z].b), K.y, K.N, K.k);
        Alpha d; he_eval_mult_3(d.a, rnd.s, &f[x].ct.v, &f[y].ct.v, &f[z].ct.v, b12, b13, b23, K.y, K.N, K.k); d.m = mul(mul(f[x].m, f[y].m), f[z].m); d.b = mul(mul(f[x].b, f[y].b), f[z].b); c.say("x%zu*x%zu*x%zu", x, y, z); c.cls("triple product"); dec2(d, "triple product"); g.push_back(d); break; }
    }
    CHECK(k0.N == K.N && k0.y == K.y && k0.p == K.p, "evaluation changed the key"); for (size_t i = 0; i < f0.size(); i++) CHECK(f0[i].ct.same(f[i].ct), "evaluation changed an operand (ciphertext %zu)", i); for (size_t i = 0; i < g0.size(); i++) CHECK(g0[i].a == g[i].a, "evaluation changed an operand (product %zu)", i);
  }
};
PROPERTY(program, 6) { World w(c); int n = (int)c.range(4, 14); for (int i = 0; i < n; i++) w.step(c); c.nontrivial(w.g.size() + w.f.size() > 2); c.cls(w.K.k == 32 ? "k = 32" : "larger k"); }
// a user's key pair: the public part encrypts the secret part, fresh for every user
PROPERTY(user_keys, 2) {
  unsigned k = c.chance(1, 3) ? 128 + (unsigned)c.below(20) : 32; Key K = gx::own_key(c, k, k + 40 + (unsigned)c.below(40)); R r(c.word(4)); Z mod, two128; mpz_ui_pow_ui(mod, 2, k); mpz_ui_pow_ui(two128, 2, 128); std::vector<Z> seen; int n = (int)c.range(2, 5); c.nontrivial(); c.cls(k < 128 ? "message space smaller than a user key" : "message space holds a user key"); c.say("%d users, k=%u", n, k);
  for (int i = 0; i < n; i++) { Z upk = gx::num(c, 60), usk = gx::num(c, 200), d, want; mu_he_keygen(upk, usk, r.s, K.N, K.y, k); CHECK(mpz_sgn(usk.v) >= 0 && mpz_cmp(usk, two128) < 0, "user key outside 128 bits: %s", usk.str().c_str()); CHECK(mpz_sgn(upk.v) > 0 && mpz_cmp(upk, K.N) < 0, "public user key outside [1, N)"); joye_libert_decrypt(d, upk, K.p, K.y, k); mpz_mod(want, usk, mod); CHECK(d == want, "the public user key decrypts to %s, the secret one is %s (k=%u)", d.str().c_str(), usk.str().c_str(), k); for (auto &o : seen) CHECK(o != usk, "two users got the same key"); seen.push_back(usk); }
  int bits = 0; for (auto &o : seen) bits = std::max(bits, (int)mpz_sizeinbase(o, 2)); CHECK(bits >= 100, "the largest of %d user keys has %d bits", n, bits);
}
PROPERTY(long_program, 0) { World w(c); int n = (int)c.range(30, 60); for (int i = 0; i < n; i++) w.step(c); c.nontrivial(); }
PROPERTY(large_space, 0) { large_space() = true; World w(c); int n = (int)c.range(4, 20); for (int i = 0; i < n; i++) w.step(c); c.nontrivial(w.g.size() + w.f.size() > 2); }
