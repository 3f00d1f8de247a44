// Accumulating in place: an evaluation whose result object is also one of its operands (or both) gives what the same
// evaluation gives with a result object of its own, throughout a program over a few registers; as does Joye-Libert encryption.
#include "programs.h"
typedef HeRun::CtMem Ct;
struct Reg1 { Ct ct; Z m; Reg1(const HeApi *a) : ct(a) {} };
struct Machine {
  const HeApi *a; unsigned k; Key K; R r, r2; Bytes kb, vb, hc; Z mod, b, l; std::vector<std::unique_ptr<Reg1>> f; Z al[3], am[3], ab[3], bm[3]; int shared = 0;
  static unsigned width(Choices &c) { return c.chance(3, 5) ? 32 : 32 * (unsigned)c.range(1, 4); }
  Machine(Choices &c) : a(c.chance(1, 2) ? &mod_muhe : &mod_he), k(width(c)), K(gx::own_key(c, k, k + 40 + (unsigned)c.below(40))), r(c.word(4)), r2(7), kb(c.keylike(16)), vb(c.keylike(16)), hc(a->hc) {
    mpz_ui_pow_ui(mod, 2, k); a->hc_init(hc.data(), kb.data(), vb.data()); c.cls(a->mu ? "multi-user labelled HE" : "labelled HE"); c.say("%sk=%u N=%s", a->mu ? "multi-user " : "", k, K.N.str().c_str());
    for (int i = 0; i < 3; i++) { f.emplace_back(new Reg1(a)); Reg1 &g = *f.back(); g.m = gx::num(c, k); mpz_set_ui(l, 100 + (unsigned long)i); Z m(g.m); a->enc(g.ct.p, r.s, hc.data(), b, m, K.y, K.N, l, k); bm[i] = b; c.say("x%d=%s", i, g.m.str().c_str()); }
    for (int i = 0; i < 3; i++) { Reg1 &x = *f[(size_t)i], &y = *f[(size_t)(i + 1) % 3]; a->mult(al[i], r.s, x.ct.p, y.ct.p, K.y, K.N, k); am[i] = op(2, x.m, y.m); ab[i] = op(2, bm[i], bm[(i + 1) % 3]); }
  }
  Z op(int o, const Z &x, const Z &y) { Z z; if (o == 0) mpz_add(z, x, y); else if (o == 1) mpz_sub(z, x, y); else mpz_mul(z, x, y); mpz_mod(z, z, mod); return z; }
  bool same(Ct &x, Ct &y) { return !mpz_cmp(a->ct_a(x.p), a->ct_a(y.p)) && !mpz_cmp(a->ct_beta(x.p), a->ct_beta(y.p)); }
  void copy(Ct &to, Ct &from) { mpz_set(a->ct_a(to.p), a->ct_a(from.p)); mpz_set(a->ct_beta(to.p), a->ct_beta(from.p)); }
  void step(Choices &c) {
    static const char *const names[] = {"sum", "difference", "scalar multiple"}; int o = (int)c.below(3); unsigned d = (unsigned)c.below(3), x = (unsigned)c.below(3), y = (unsigned)c.below(3); Z s = gx::num(c, k), s0(s); Key k0(K); bool share = o == 2 ? d == x : d == x || d == y; shared += share; char t[100];
    if (share) c.cls(o == 2 ? "scalar multiple over its operand" : d == x && d == y ? "doubling over its operand" : d == x ? "over the first operand" : "over the second operand");
    if (c.chance(3, 5)) {
      o == 2 ? snprintf(t, sizeof t, "x%u = %s of x%u", d, names[o], x) : snprintf(t, sizeof t, "x%u = %s of x%u, x%u", d, names[o], x, y); c.say("%s", t); Ct out(a), was[3] = {Ct(a), Ct(a), Ct(a)}; for (unsigned i = 0; i < 3; i++) copy(was[i], f[i]->ct); Z m = o == 2 ? op(2, f[x]->m, s) : op(o, f[x]->m, f[y]->m); c.cls(names[o]);
      void *X = f[x]->ct.p, *Y = f[y]->ct.p, *D = f[d]->ct.p;
      if (o == 0) { a->add1(out.p, X, Y, K.N, k); a->add1(D, X, Y, K.N, k); } else if (o == 1) { a->sub1(out.p, X, Y, K.N, k); a->sub1(D, X, Y, K.N, k); } else { a->cmult1(out.p, X, s, K.N, k); a->cmult1(D, X, s, K.N, k); }
      CHECK(same(out, f[d]->ct), "%s (k=%u): the result differs from the one with a result object of its own", t, k); for (unsigned i = 0; i < 3; i++) CHECK(i == d || same(was[i], f[i]->ct), "%s: x%u changed", t, i);
      f[d]->m = m; Z g; a->dec1(g, D, K.p, K.y, k); CHECK(g == m, "%s (k=%u): decrypted to %s, expected %s", t, k, g.str().c_str(), m.str().c_str());
    } else {
      o == 2 ? snprintf(t, sizeof t, "y%u = %s of y%u", d, names[o], x) : snprintf(t, sizeof t, "y%u = %s of y%u, y%u", d, names[o], x, y); c.say("%s", t); static const char *const n2[] = {"sum of products", "difference of products", "scalar multiple of a product"}; c.cls(n2[o]); Z out, was[3] = {al[0], al[1], al[2]}, m = o == 2 ? op(2, am[x], s) : op(o, am[x], am[y]), mb = o == 2 ? op(2, ab[x], s) : op(o, ab[x], ab[y]);
      if (o == 0) { a->add2(out, al[x], al[y], K.N); a->add2(al[d], al[x], al[y], K.N); } else if (o == 1) { a->sub2(out, al[x], al[y], K.N); a->sub2(al[d], al[x], al[y], K.N); } else { a->cmult2(out, al[x], s, K.N); a->cmult2(al[d], al[x], s, K.N); }
      CHECK(out == al[d], "%s (k=%u): the result differs from the one with a result object of its own", t, k); for (unsigned i = 0; i < 3; i++) CHECK(i == d || was[i] == al[i], "%s: y%u changed", t, i);
      am[d] = m; ab[d] = mb; Z g; a->dec2(g, al[d], mb, K.p, K.y, k); CHECK(g == m, "%s (k=%u): decrypted to %s, expected %s", t, k, g.str().c_str(), m.str().c_str());
    }
    CHECK(s == s0 && k0.N == K.N && k0.y == K.y && k0.p == K.p, "%s: the scalar or the key changed", t);
  }
};
PROPERTY(program, 6) { gx::seeded() = false; Machine w(c); int n = (int)c.range(2, 20); for (int i = 0; i < n; i++) w.step(c); c.nontrivial(w.shared > 0); }
// Joye-Libert: the ciphertext takes the place of the message
PROPERTY(encrypt, 2) {
  const HeApi *a = c.chance(1, 2) ? &mod_muhe : &mod_he; unsigned k = (unsigned)c.range(1, 100); Key K = gx::own_key(c, k, k + 40 + (unsigned)c.below(40)); uint64_t seed = c.word(4); int n = (int)c.range(1, 6); R r(seed), s(seed); c.nontrivial(); c.cls("encryption over the message"); c.say("k=%u: %d encryptions", k, n);
  for (int i = 0; i < n; i++) { Z m = gx::num(c, k), x(m), out, g; a->jl_enc(out, r.s, m, K.y, K.N, k); a->jl_enc(x, s.s, x, K.y, K.N, k); CHECK(out == x, "encryption of %s (k=%u) over the message: the result differs from the one with a result object of its own", m.str().c_str(), k); a->jl_dec(g, x, K.p, K.y, k); CHECK(g == m, "encryption over the message (k=%u): decrypted to %s, expected %s", k, g.str().c_str(), m.str().c_str()); }
}
PROPERTY(long_program, 0) { gx::seeded() = false; Machine w(c); int n = (int)c.range(60, 200); for (int i = 0; i < n; i++) w.step(c); c.nontrivial(w.shared > 0); }
