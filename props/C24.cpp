// Labelled homomorphic encryption: programs of degree up to two (and triple products).
#include "lhe.h"
struct D1 { Ct ct; Z m, b; };            // degree one: ciphertext, plaintext, mask of the same program
struct D2 { Z alpha, m, b; };            // degree two and three
struct World {
  Key K; R rnd; Mask mk; Z mod; std::vector<D1> f; std::vector<D2> g; std::vector<Z> labels;
  World(Choices &c) : K(lhe_key(c)), rnd(c.word(4)), mk(c, c.keylike(16), c.keylike(16)) { mpz_ui_pow_ui(mod, 2, K.k); }
  Z red(const Z &x) { Z r; mpz_mod(r, x, mod); return r; }
  Z mul(const Z &x, const Z &y) { Z r; mpz_mul(r, x, y); return red(r); } Z add(const Z &x, const Z &y) { Z r; mpz_add(r, x, y); return red(r); } Z sub(const Z &x, const Z &y) { Z r; mpz_sub(r, x, y); return red(r); }
  void fresh(Choices &c, bool check) {
    D1 d; Z l; bool dup; do { l = gx::num(c, K.k); dup = false; for (auto &o : labels) dup |= o == l; if (dup) mpz_set_ui(l, (unsigned long)labels.size() + 1000); dup = false; for (auto &o : labels) dup |= o == l; } while (dup && labels.size() > 4000);
    labels.push_back(l); d.m = gx::num(c, K.k); c.say("enc(m=%s, label=%s)", d.m.str().c_str(), l.str().c_str()); lhe_encrypt(d.ct, rnd, mk, d.b, d.m, K, l);
    CHECK(mpz_sgn(d.b.v) >= 0 && mpz_cmp(d.b, mod) < 0, "mask outside the message space"); Z s; mpz_add(s, d.ct.v.a, d.b); CHECK(red(s) == d.m, "first component plus mask is not the message (k=%u)", K.k);
    if (check) { Z bd; joye_libert_decrypt(bd, d.ct.v.beta, K.p, K.y, K.k); CHECK(bd == d.b, "second component does not encrypt the mask"); }
    f.push_back(d); dec1(f.back(), "fresh ciphertext");
  }
  void dec1(const D1 &d, const char *what) { Z g; Ct before(d.ct); he_decrypt(g, &d.ct.v, K.p, K.y, K.k); CHECK(g == d.m, "%s (k=%u): decrypted to %s, expected %s", what, K.k, g.str().c_str(), d.m.str().c_str()); CHECK(before.same(d.ct), "decryption changed the ciphertext"); }
  void dec2(const D2 &d, const char *what) { Z g, a(d.alpha), b(d.b); he_decrypt(g, a, b, K.p, K.y, K.k); CHECK(g == d.m, "%s (k=%u): decrypted to %s, expected %s", what, K.k, g.str().c_str(), d.m.str().c_str()); CHECK(a == d.alpha && b == d.b, "decryption changed its operands"); }
  void step(Choices &c) {
    if (f.size() < 2) { fresh(c, true); return; }
    size_t x = c.below(f.size()), y = c.below(f.size()); Key k0(K); std::vector<D1> f0; if (f.size() < 12) f0 = f;
    switch (c.pick({4, 2, 2, 2, 5, (unsigned)(g.empty() ? 0 : 2), (unsigned)(g.empty() ? 0 : 2), (unsigned)(g.empty() ? 0 : 2), 1})) {
      case 0: fresh(c, c.chance(1, 4)); break;
      case 1: { D1 d; he_eval_add(&d.ct.v, &f[x].ct.v, &f[y].ct.v, K.N, K.k); d.m = add(f[x].m, f[y].m); d.b = add(f[x].b, f[y].b); c.say("x%zu+x%zu", x, y); c.cls("sum"); dec1(d, "sum"); f.push_back(d); break; }
      case 2: { D1 d; he_eval_sub(&d.ct.v, &f[x].ct.v, &f[y].ct.v, K.N, K.k); d.m = sub(f[x].m, f[y].m); d.b = sub(f[x].b, f[y].b); c.say("x%zu-x%zu", x, y); c.cls("difference"); dec1(d, "difference"); f.push_back(d); break; }
      case 3: { D1 d; Z s = gx::num(c, K.k), s0(s); he_eval_cmult(&d.ct.v, &f[x].ct.v, s, K.N, K.k); CHECK(s == s0, "scalar changed"); d.m = mul(f[x].m, s); d.b = mul(f[x].b, s); c.say("%s*x%zu", s.str().c_str(), x); c.cls("scalar multiple"); dec1(d, "scalar multiple"); f.push_back(d); break; }
      case 4: { D2 d; he_eval_mult(d.alpha, rnd.s, &f[x].ct.v, &f[y].ct.v, K.y, K.N, K.k); d.m = mul(f[x].m, f[y].m); d.b = mul(f[x].b, f[y].b); c.say("x%zu*x%zu", x, y); c.cls("product"); if (x == y) c.cls("square"); dec2(d, "product"); g.push_back(d); break; }
      case 5: case 6: case 7: {
        size_t u = c.below(g.size()), v = c.below(g.size()); D2 d; std::vector<D2> g0(g); int op = (int)c.below(3);
        if (op == 0) { he_eval_add(d.alpha, g[u].alpha, g[v].alpha, K.N); d.m = add(g[u].m, g[v].m); d.b = add(g[u].b, g[v].b); c.say("y%zu+y%zu", u, v); c.cls("sum of products"); dec2(d, "sum of products"); }
        else if (op == 1) { he_eval_sub(d.alpha, g[u].alpha, g[v].alpha, K.N); d.m = sub(g[u].m, g[v].m); d.b = sub(g[u].b, g[v].b); c.say("y%zu-y%zu", u, v); c.cls("difference of products"); dec2(d, "difference of products"); }
        else { Z s = gx::num(c, K.k); he_eval_cmult(d.alpha, g[u].alpha, s, K.N); d.m = mul(g[u].m, s); d.b = mul(g[u].b, s); c.say("%s*y%zu", s.str().c_str(), u); c.cls("scalar multiple of a product"); dec2(d, "scalar multiple of a product"); }
        for (size_t i = 0; i < g0.size(); i++) CHECK(g0[i].alpha == g[i].alpha, "evaluation changed an operand"); g.push_back(d); break; }
      case 8: {
        size_t z = c.below(f.size()); Z b12, b13, b23; joye_libert_encrypt(b12, rnd.s, mul(f[x].b, f[y].b), K.y, K.N, K.k); joye_libert_encrypt(b13, rnd.s, mul(f[x].b, f[z].b), K.y, K.N, K.k); joye_libert_encrypt(b23, rnd.s, mul(f[y].b, f[z].b), K.y, K.N, K.k);
        D2 d; Z c12(b12), c13(b13), c23(b23); he_eval_mult_3(d.alpha, rnd.s, &f[x].ct.v, &f[y].ct.v, &f[z].ct.v, b12, b13, b23, K.y, K.N, K.k); CHECK(b12 == c12 && b13 == c13 && b23 == c23, "triple product changed an operand");
        d.m = mul(mul(f[x].m, f[y].m), f[z].m); d.b = mul(mul(f[x].b, f[y].b), f[z].b); c.say("x%zu*x%zu*x%zu", x, y, z); c.cls("triple product"); dec2(d, "triple product"); g.push_back(d); break; }
    }
    CHECK(k0.N == K.N && k0.y == K.y && k0.p == K.p, "evaluation changed the key"); for (size_t i = 0; i < f0.size(); i++) CHECK(f0[i].ct.same(f[i].ct), "evaluation changed an operand (ciphertext %zu)", i);
  }
};
PROPERTY(program, 6) { World w(c); int n = (int)c.range(4, 16); for (int i = 0; i < n; i++) w.step(c); c.nontrivial(w.g.size() + w.f.size() > 2); c.cls(w.K.k == 32 ? "k = 32" : "larger k"); }
// a whole quadratic form: sum of c_ij x_i x_j, linear terms as products with an encryption of one
PROPERTY(polynomial, 2) {
  World w(c); size_t n = 2 + c.below(3); for (size_t i = 0; i < n; i++) w.fresh(c, false); D1 one; { Z l; mpz_set_ui(one.m, 1); mpz_set_ui(l, 77); lhe_encrypt(one.ct, w.rnd, w.mk, one.b, one.m, w.K, l); } w.f.push_back(one); D2 acc; bool first = true; c.nontrivial(); c.cls("quadratic polynomial"); int terms = (int)c.range(2, 7);
  for (int t = 0; t < terms; t++) { size_t i = c.below(n), j = c.below(n + 1); Z s = gx::num(c, w.K.k), p, q; he_eval_mult(p, w.rnd.s, &w.f[i].ct.v, &w.f[j].ct.v, w.K.y, w.K.N, w.K.k); he_eval_cmult(q, p, s, w.K.N); Z mv = w.mul(w.mul(w.f[i].m, w.f[j].m), s), bv = w.mul(w.mul(w.f[i].b, w.f[j].b), s); c.say("%s%s x%zu x%zu", first ? "" : "+ ", s.str().c_str(), i, j); if (first) { acc.alpha = q; acc.m = mv; acc.b = bv; first = false; } else { Z r; bool minus = c.chance(1, 3); if (minus) he_eval_sub(r, acc.alpha, q, w.K.N); else he_eval_add(r, acc.alpha, q, w.K.N); acc.alpha = r; acc.m = minus ? w.sub(acc.m, mv) : w.add(acc.m, mv); acc.b = minus ? w.sub(acc.b, bv) : w.add(acc.b, bv); } }
  w.dec2(acc, "polynomial");
}
PROPERTY(long_program, 0) { World w(c); int n = (int)c.range(40, 80); for (int i = 0; i < n; i++) w.step(c); c.nontrivial(); }
PROPERTY(large_space, 0) { large_space() = true; World w(c); int n = (int)c.range(4, 20); for (int i = 0; i < n; i++) w.step(c); c.nontrivial(w.g.size() + w.f.size() > 2); }
// one masking context for tens of thousands of encryptions
PROPERTY(many_calls, 0) {
  World w(c); int n = (int)c.range(17000, 36000); c.nontrivial(); c.cls("many encryptions"); c.say("k=%u: %d encryptions", w.K.k, n); uint64_t seed = c.word(5);
  for (int i = 0; i < n;) { Bytes e(8192); pbt::expand(seed++, e.data(), e.size()); Choices x(e.data(), e.size()); for (; i < n && x.used() + 400 < e.size(); i++) { D1 d; Z l = gx::num(x, w.K.k); d.m = gx::num(x, w.K.k); lhe_encrypt(d.ct, w.rnd, w.mk, d.b, d.m, w.K, l); CHECK(mpz_sgn(d.b.v) >= 0 && mpz_cmp(d.b, w.mod) < 0, "encryption %d: mask outside the message space", i + 1); Z s; mpz_add(s, d.ct.v.a, d.b); CHECK(w.red(s) == d.m, "encryption %d: first component plus mask is not the message (k=%u)", i + 1, w.K.k); if (i % 16 == 0 || i > n - 20) w.dec1(d, "ciphertext made after many"); } }
}
