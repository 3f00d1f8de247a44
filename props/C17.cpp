// HMAC validation: accepts exactly the right tag.
#include "sessions.h"
static Bytes right(HmacSession &s, const Bytes &m, int tl) { uint8_t w[32]; ref::hmac_sha256(s.key.data(), s.key.size(), m.data(), m.size(), w); return Bytes(w, w + tl); }
PROPERTY(validate, 6) {
  HmacSession s(c, hmac_builds()[0]); int n = (int)c.range(1, 10);
  for (int i = 0; i < n; i++) {
    Bytes m = c.content(1 + c.length(c.chance(1, 8) ? 3000 : 200, 64)); int tl = c.chance(1, 2) ? 32 : (int)c.range(1, 32); Bytes t = right(s, m, tl); size_t off = c.chance(1, 4) ? c.below(8) : 0, toff = c.chance(1, 4) ? c.below(8) : 0;
    const char *w = "authentic"; 
    switch (c.pick({5, 4, 3, 2, 2, 2, 2, 2, 1, 5})) {
      case 0: break;
      case 1: { size_t bit = c.below((uint64_t)tl * 8); t[bit / 8] ^= (uint8_t)(1u << (bit & 7)); w = "one tag bit changed"; break; }
      case 9: structured_damage(c, t); w = "tag changed in several places"; break;
      case 2: { size_t bit = c.below(m.size() * 8); m[bit / 8] ^= (uint8_t)(1u << (bit & 7)); w = "one message bit changed"; break; }
      case 3: m.resize(c.below(m.size())); w = "message truncated"; break;
      case 4: { int k = (int)c.range(1, 65); uint8_t b = c.chance(1, 2) ? 0 : c.byte(); for (int j = 0; j < k; j++) m.push_back(j ? b : (uint8_t)(c.chance(1, 3) ? 0x80 : b)); w = "message extended"; break; }
      case 5: { Bytes x = c.content((size_t)tl); t = x; w = "arbitrary tag"; break; }
      case 6: { int at = (int)c.below((uint64_t)tl); for (int j = at; j < tl; j++) t[(size_t)j] ^= (uint8_t)c.range(1, 255); w = "tag tail changed"; break; }
      case 7: { int at = (int)c.below((uint64_t)tl); for (int j = 0; j <= at; j++) t[(size_t)j] ^= (uint8_t)c.range(1, 255); w = "tag head changed"; break; }
      case 8: { size_t bit = c.below((s.key.size() + 1) * 8); Bytes k = s.key; if (bit / 8 < k.size()) k[bit / 8] ^= (uint8_t)(1u << (bit & 7)); else k.push_back((uint8_t)(1u << (bit & 7))); uint8_t h[32]; ref::hmac_sha256(k.data(), k.size(), m.data(), m.size(), h); t.assign(h, h + tl); w = "tag made with another key"; break; }
    }
    c.say("%s (message %zu, tag %d)", w, m.size(), tl); c.cls(w); c.nontrivial(w[0] != 'a' || i > 0); s.val_check(t, m, off, toff);
    if (c.chance(1, 6)) { Bytes mm = c.content(1 + c.below(70)); s.gen(mm, 32); }
    if (c.chance(1, 10)) { s.key = HmacSession::gen_key(c); s.load(c); c.cls("key reload"); }
  }
}
// every bit of one tag, at every tag length
PROPERTY(every_bit, 1) {
  HmacSession s(c, hmac_builds()[0]); Bytes m = c.content(1 + c.length(150, 64)); c.nontrivial(); c.cls("every tag bit"); c.say("message %zu", m.size()); int only = (int)c.range(0, 32);
  for (int tl = only ? only : 1; tl <= (only ? only : 32); tl++) { Bytes t = right(s, m, tl); CHECK(s.val(t, m), "correct %d-byte tag rejected", tl); for (int bit = 0; bit < tl * 8; bit += only ? 1 : 5) { t[(size_t)bit / 8] ^= (uint8_t)(1 << (bit & 7)); CHECK(!s.val(t, m), "%d-byte tag with bit %d changed was accepted", tl, bit); t[(size_t)bit / 8] ^= (uint8_t)(1 << (bit & 7)); } CHECK(s.val(t, m), "correct %d-byte tag rejected after wrong ones", tl); }
}
// single-byte tags: exactly one of the 256 values is accepted
PROPERTY(one_byte, 1) { HmacSession s(c, hmac_builds()[0]); Bytes m = c.content(1 + c.length(150, 64)); int ok = 0, last = -1; c.nontrivial(); c.cls("all one-byte tags"); c.say("message %zu", m.size()); for (int v = 0; v < 256; v++) if (s.val(Bytes(1, (uint8_t)v), m)) { ok++; last = v; } CHECK(ok == 1 && last == right(s, m, 1)[0], "%d one-byte tags accepted, last %d", ok, last); }
// an empty message has no tag: nothing is accepted for it
PROPERTY(empty, 1) {
  HmacSession s(c, hmac_builds()[0]); int n = (int)c.range(1, 6); c.nontrivial(); c.cls("empty message");
  for (int i = 0; i < n; i++) {
    int tl = (int)c.range(1, 32); Bytes t;
    switch (c.below(4)) { case 0: t = Bytes((size_t)tl, 0); break; case 1: t = right(s, Bytes(), tl); break; case 2: { Bytes m = c.content(1 + c.below(40)); t = s.gen(m, tl); break; } default: t = c.content((size_t)tl); }
    if (c.chance(1, 3)) { Bytes m = c.content(1 + c.below(40)), g = s.gen(m, tl); CHECK(s.val(g, m), "correct tag rejected"); if (c.chance(1, 2)) t = g; }     // stack holds a tag just computed
    c.say("tag %s", pbt::hex(t).c_str()); CHECK(!s.val(t, Bytes()), "a %d-byte tag was accepted for an empty message", tl);
  }
}
PROPERTY(long_message, 0) { HmacSession s(c, hmac_builds()[0]); Bytes m = c.content(c.chance(1, 3) ? c.near_power(25) : 1 + (size_t)c.range(0, 2) * 4500000 + c.length(60000, 64)); c.nontrivial(); c.cls(m.size() > 8388608 ? "more than 8 MB" : "long"); c.say("message %zu", m.size()); Bytes t = right(s, m, 32); s.val_check(t, m); size_t at = c.below(m.size()); m[at] ^= 0x10; s.val_check(t, m); m[at] ^= 0x10; m.back() ^= 1; s.val_check(t, m); m.back() ^= 1; m.pop_back(); if (!m.empty()) s.val_check(t, m); }
PROPERTY(enormous_message, 0) {
  const HmacApi *a = hmac_builds()[0].api; Bytes key = c.keylike(20), t(32); Ctx cs(a->state, 5); Buf k(key); a->load_key(cs, k, 20); size_t n = ((size_t)1 << 32) + c.below(70); c.nontrivial(); c.say("message %zu", n); c.cls("more than 4 GiB"); Ring in(n); in.fill(c.word(4)); ref::hmac_sha256(key.data(), 20, in.base, n, t.data());
  Bytes t1 = t, t2 = t; int right = a->val(cs, t1.data(), in.base, n, 32); in.base[n - 1] ^= 4; int wrong = a->val(cs, t2.data(), in.base, n, 32);
  CHECK(right, "the tag of a message of %zu bytes was rejected", n); CHECK(!wrong, "the tag of another message of %zu bytes was accepted", n);
}
// tens of thousands of validations, wrong ones or mixed, do not change the judgement
PROPERTY(many_calls, 0) {
  HmacSession s(c, hmac_builds()[0]); Bytes m = c.content(1 + c.length(40, 64)); int tl = (int)c.range(1, 32), n = (int)c.range(66000, 72000); bool mixed = c.chance(1, 2); Bytes t = right(s, m, tl); c.nontrivial(); c.cls(mixed ? "many validations" : "many wrong tags"); c.say("%d validations", n); uint64_t r = c.word(5);
  for (int i = 0; i < n; i++) { uint64_t v = pbt::splitmix(r); Bytes u = t; bool bad = !mixed || v & 1; if (bad) u[(v >> 8) % (uint64_t)tl] ^= (uint8_t)(1 + (v >> 16) % 255); CHECK(s.val(u, m) == !bad, "validation %d: a %s %d-byte tag was %s", i + 1, bad ? "wrong" : "correct", tl, bad ? "accepted" : "rejected"); }
  CHECK(s.val(t, m), "correct tag rejected after %d validations", n);
}
