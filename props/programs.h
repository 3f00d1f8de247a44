// Generated programs over the whole library, for properties that hold for every
// operation: a fixed history of calls that can be run again and again.  Each
// run makes its own contexts and releases everything it made.
#pragma once
#include "sessions.h"
#include <functional>
typedef std::function<void()> Program;
static inline Program session_program(Choices &c, int most, size_t maxlen) {
  std::vector<Maker> mk = makers(); size_t which = c.below(mk.size()); int n = (int)c.range(1, (uint64_t)most); Bytes ops((size_t)c.range(40, 600)); c.raw(ops.data(), ops.size());
  { Choices x(ops.data(), ops.size()); std::unique_ptr<Session> s(mk[which](x)); c.cls(s->name()); c.say("%s: %d operations", s->name(), n); }
  return [=] { Choices x(ops.data(), ops.size()); std::unique_ptr<Session> s(mk[which](x)); for (int i = 0; i < n; i++) s->step(x, maxlen); };
}
#ifdef HAVE_he
#define GMPX_MAIN
#define GMPX_PLAIN
#include "gmpx.h"
#include "he_api.h"
extern "C" const HeApi mod_he, mod_muhe;
// encryptions, evaluations and decryptions of labelled ciphertexts, and plain Joye-Libert
struct HeOp { int kind; unsigned x, y, z; Z m, l; };
struct HePlan {                                      // one user's key, generator, masking key and operations
  const HeApi *a; unsigned k; Key K; uint64_t seed; Bytes key, iv; std::vector<HeOp> ops;
  HePlan(Choices &c, int most, const unsigned *hot = nullptr) {     // hot: two kinds of operation, and no others
    a = c.chance(1, 2) ? &mod_muhe : &mod_he; k = 32 * (unsigned)c.range(1, 3); K = gx::own_key(c, k, k + 40 + (unsigned)c.below(30)); seed = c.word(4); key = c.keylike(16); iv = c.keylike(16); int n = (int)c.range(1, (uint64_t)most); for (int i = 0; i < n; i++) { HeOp o; o.kind = hot ? (int)hot[c.below(2)] : (int)c.below(16); o.x = (unsigned)c.below(3); o.y = (unsigned)c.below(3); o.z = (unsigned)c.below(3); o.m = gx::num(c, k); o.l = gx::num(c, k); ops.push_back(o); }
    static const char *const names[] = {"encrypt", "sum", "difference", "scalar multiple", "product", "triple product", "sum of products", "difference of products", "scalar multiple of a product", "decrypt", "decrypt a product", "Joye-Libert encrypt", "Joye-Libert decrypt", "Joye-Libert key", "labelled HE key", "user key"};
    for (auto &o : ops) { c.say("%s%s", a->mu ? "multi-user " : "", names[o.kind]); c.cls(names[o.kind]); } c.cls(a->mu ? "multi-user labelled HE" : "labelled HE");
  }
};
struct HeRun {                                       // the plan carried out, one operation at a time
  struct CtMem { const HeApi *a; std::vector<uint64_t> m; void *p; CtMem(const HeApi *a_) : a(a_), m((a_->ct + 7) / 8) { p = m.data(); a->ct_init(p); } ~CtMem() { mpz_clear(a->ct_a(p)); mpz_clear(a->ct_beta(p)); } CtMem(const CtMem &) = delete; };
  const HePlan &P; const HeApi *a; Key k0; R r; Bytes kb, vb, hc; CtMem c0, c1, c2, out; void *ct[3]; Z al[3], t, u, b; size_t at = 0; std::vector<std::string> results;      // what every operation gave
  explicit HeRun(const HePlan &p) : P(p), a(p.a), k0(p.K), r(p.seed), kb(p.key), vb(p.iv), hc(a->hc), c0(a), c1(a), c2(a), out(a), ct{c0.p, c1.p, c2.p} { a->hc_init(hc.data(), kb.data(), vb.data()); for (int i = 0; i < 3; i++) { Z m(7 + (unsigned long)i), l(100 + (unsigned long)i); a->enc(ct[i], r.s, hc.data(), b, m, k0.y, k0.N, l, P.k); mpz_set(al[i], a->ct_beta(ct[i])); } }
  static std::string text(const Z &z) { std::string s(mpz_sizeinbase(z, 16) + 2, 0); mpz_get_str(&s[0], 16, z); s.resize(strlen(s.c_str())); return s; }
  std::string both(void *c) { Z x, y; mpz_set(x, a->ct_a(c)); mpz_set(y, a->ct_beta(c)); return text(x) + "/" + text(y); }
  void step() {
    const HeOp &o = P.ops[at++]; unsigned k = P.k; Z m(o.m), l(o.l), N2, y2, p2; std::string w;
    switch (o.kind) {
      case 0: a->enc(ct[o.x], r.s, hc.data(), b, m, k0.y, k0.N, l, k); w = both(ct[o.x]) + "/" + text(b); break;
      case 1: a->add1(out.p, ct[o.x], ct[o.y], k0.N, k); w = both(out.p); break;
      case 2: a->sub1(out.p, ct[o.x], ct[o.y], k0.N, k); w = both(out.p); break;
      case 3: a->cmult1(out.p, ct[o.x], m, k0.N, k); w = both(out.p); break;
      case 4: a->mult(al[o.z], r.s, ct[o.x], ct[o.y], k0.y, k0.N, k); w = text(al[o.z]); break;
      case 5: a->mult3(t, r.s, ct[o.x], ct[o.y], ct[o.z], al[0], al[1], al[2], k0.y, k0.N, k); w = text(t); break;
      case 6: a->add2(t, al[o.x], al[o.y], k0.N); w = text(t); break;
      case 7: a->sub2(t, al[o.x], al[o.y], k0.N); w = text(t); break;
      case 8: a->cmult2(t, al[o.x], m, k0.N); w = text(t); break;
      case 9: a->dec1(u, ct[o.x], k0.p, k0.y, k); w = text(u); break;
      case 10: a->dec2(u, al[o.x], m, k0.p, k0.y, k); w = text(u); break;
      case 11: a->jl_enc(t, r.s, m, k0.y, k0.N, k); w = text(t); break;
      case 12: a->jl_dec(u, al[o.x], k0.p, k0.y, k); w = text(u); break;
      case 13: a->jl_keygen(N2, y2, p2, 8 + o.x, 100 + 20 * o.y); break;           // random
      case 14: a->keygen(N2, y2, p2, 8 + o.x, 100 + 20 * o.y); break;
      default: if (a->user) { a->user(t, u, r.s, k0.N, k0.y, k); w = text(t) + "/" + text(u); }
    }
    results.push_back(w);
  }
};
static inline Program he_program(Choices &c, int most) {
  auto p = std::make_shared<HePlan>(c, most);
  return [=] { gx::seeded() = true; gx::seed() = p->seed; { HeRun run(*p); for (size_t i = 0; i < p->ops.size(); i++) run.step(); } gx::seeded() = false; };
}
#endif
