// Labelled HE: what the mask of a label depends on.
#include "lhe.h"
static Z label(Choices &c, unsigned k) { if (c.chance(1, 3)) return gx::num(c, (unsigned)c.range(1, k)); return gx::num(c, k); }
static void sub_ok(const Ct &ct, const Z &b, const Z &m, unsigned k) { Z mod, t; mpz_ui_pow_ui(mod, 2, k); CHECK(mpz_sgn(b.v) >= 0 && mpz_cmp(b, mod) < 0, "the mask is outside the message space"); mpz_sub(t, m, b); mpz_mod(t, t, mod); CHECK(!mpz_cmp(t, ct.v.a), "the first component is not the message minus the mask"); }
// One label, many freshly initialised contexts with the same masking key: different messages, random states, leftover memory, public keys.
static void fresh_contexts(Choices &c) {
  Key K = lhe_key(c), K2 = c.chance(1, 3) ? gx::own_key(c, K.k, K.k + 40) : K; Bytes key = c.keylike(16), iv = c.keylike(16); Z l = label(c, K.k); int n = (int)c.range(2, 5); Z first; c.nontrivial(); c.cls(mpz_sizeinbase(l, 2) <= K.k / 2 ? "short label" : "long label"); c.say("label=%s", l.str().c_str());
  for (int i = 0; i < n; i++) { Mask mk(c, key, iv); R r(c.word(3)); Z b = gx::num(c, 40), m = gx::num(c, K.k); Ct ct; uint64_t paint = c.word(2) * 0x9e3779b97f4a7c15ull; if (paint) pbt::paint_stack(paint); lhe_encrypt(ct, r, mk, b, m, i & 1 ? K2 : K, l); c.say("m=%s", m.str().c_str()); sub_ok(ct, b, m, K.k); if (i) CHECK(b == first, "label %s gets mask %s in one context and %s in another with the same masking key", l.str().c_str(), first.str().c_str(), b.str().c_str()); else first = b; }
  // a context that is initialised again starts over
  Mask mk(c, key, iv); R r(c.word(3)); Ct ct; Z b, m = gx::num(c, K.k); int before = (int)c.range(0, 3); for (int i = 0; i < before; i++) lhe_encrypt(ct, r, mk, b, m, K, gx::num(c, K.k)); mk.init(); lhe_encrypt(ct, r, mk, b, m, K, l); CHECK(b == first, "label %s gets another mask after its context was used and initialised again", l.str().c_str());
  // another masking key gives another mask
  Bytes k2 = key; size_t bit = c.below(128); k2[bit / 8] ^= (uint8_t)(1u << (bit & 7)); Mask mo(c, k2, iv); lhe_encrypt(ct, r, mo, b, m, K, l); if (K.k >= 64) CHECK(b != first, "two masking keys give the same mask");
}
// Two sessions in step: the n-th encryption under equal masking keys gives equal masks for equal labels, whatever the messages.
static void sessions(Choices &c) {
  Key K = lhe_key(c); Bytes key = c.keylike(16), iv = c.keylike(16); Mask x(c, key, iv), y(c, key, iv); R rx(c.word(3)), ry(c.word(3)); int n = (int)c.range(2, 8); c.nontrivial(); c.cls("two sessions in step"); std::vector<Z> ls, bs;
  for (int i = 0; i < n; i++) {
    Z l = label(c, K.k); bool dup = false; for (auto &o : ls) dup |= o == l; if (dup) mpz_set_ui(l, 5000 + (unsigned long)i); bool other = c.chance(1, 4); Z l2 = l; if (other) mpz_combit(l2, c.below(K.k)); Z bx, by, mx = gx::num(c, K.k), my = gx::num(c, K.k); Ct cx, cy; c.say("label=%s%s", l.str().c_str(), other ? " / other" : ""); lhe_encrypt(cx, rx, x, bx, mx, K, l); lhe_encrypt(cy, ry, y, by, my, K, l2); sub_ok(cx, bx, mx, K.k); sub_ok(cy, by, my, K.k);
    if (other) CHECK(bx != by, "two labels get the same mask at one position"); else CHECK(bx == by, "label %s gets mask %s for one message and %s for another", l.str().c_str(), bx.str().c_str(), by.str().c_str());
    if (K.k >= 64) for (size_t j = 0; j < bs.size(); j++) CHECK(bs[j] != bx, "labels %s and %s of one session get the same mask", ls[j].str().c_str(), l.str().c_str());
    ls.push_back(l); bs.push_back(bx);
  }
}
// Labels of one session with 32-bit masks: at most a chance coincidence
PROPERTY(different_labels, 1) { Key K = lhe_key(c); Mask x(c, c.keylike(16), c.keylike(16)); R r(c.word(3)); c.nontrivial(); c.cls("masks of sixteen labels"); std::vector<Z> bs; int same = 0; unsigned long base = (unsigned long)c.word(3); c.say("labels %lu..", base); for (unsigned long i = 0; i < 16; i++) { Z l(base + i), b, m = gx::num(c, K.k); Ct ct; lhe_encrypt(ct, r, x, b, m, K, l); for (auto &o : bs) same += o == b; bs.push_back(b); } CHECK(same <= 1, "%d coinciding masks among sixteen labels", same); }
// The same label used again in one session.
PROPERTY(same_label_again, 1) {
  Key K = lhe_key(c); Mask x(c, c.keylike(16), c.keylike(16)); R r(c.word(3)); Z l = label(c, K.k), b1, b2, m = gx::num(c, K.k); Ct a, d; c.nontrivial(); c.cls("label used twice in a session"); lhe_encrypt(a, r, x, b1, m, K, l); int n = (int)c.range(0, 3); for (int i = 0; i < n; i++) { Ct t; Z b; lhe_encrypt(t, r, x, b, m, K, gx::num(c, K.k)); } Z m2 = gx::num(c, K.k); lhe_encrypt(d, r, x, b2, m2, K, l); sub_ok(a, b1, m, K.k); sub_ok(d, b2, m2, K.k);
  if (b1 != b2) throw pbt::Known{"mask-depends-on-position"};
}
PROPERTY(contexts, 6) { fresh_contexts(c); }
PROPERTY(two_sessions, 3) { sessions(c); }
PROPERTY(large_space, 0) { large_space() = true; if (c.chance(2, 3)) fresh_contexts(c); else sessions(c); }
