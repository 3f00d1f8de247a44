// HMAC-SHA-256: tags.
#include "sessions.h"
static const char *key_class(size_t n) { return n == 0 ? "empty key" : n < 64 ? "key shorter than the hash block" : n == 64 ? "key equal to the hash block" : "key longer than the hash block"; }
static size_t key_len(Choices &c) { switch (c.pick({3, 3, 3, 2, 2})) { case 0: return c.below(64); case 1: return 62 + c.below(5); case 2: return 65 + c.below(130); case 3: return c.length(2000, 64); default: return c.below(3); } }
PROPERTY(tag, 6) {
  size_t kn = key_len(c); HmacSession s(c, hmac_builds()[0], kn <= 64 && c.chance(1, 2) ? c.keylike(kn) : c.content(kn)); Bytes msg = c.content(1 + c.length(4000, 64)); int tl = c.chance(1, 2) ? 32 : (int)c.range(1, 32); c.say("message %zu, tag %d", msg.size(), tl);
  c.nontrivial(); c.cls(key_class(kn)); c.cls(tl < 32 ? "truncated tag" : "full tag"); Bytes t = s.gen(msg, tl, c.chance(1, 3) ? c.below(8) : 0, c.chance(1, 3) ? c.below(8) : 0); c.digest(t.data(), t.size());
}
// a loaded key serves many messages and validations, in any order; keys are reloaded
PROPERTY(history, 4) { HmacSession s(c, hmac_builds()[0]); int n = (int)c.range(2, 20); c.nontrivial(); c.cls(key_class(s.key.size())); c.cls("many operations under one key"); for (int i = 0; i < n; i++) s.step(c, c.chance(1, 8) ? 5000 : 200); }
// shorter tags are prefixes of longer ones; generating twice gives the same (no model)
PROPERTY(prefixes, 1) {
  const HmacApi *a = hmac_builds()[0].api; Ctx cs(a->state, c.word(2)); Bytes key = HmacSession::gen_key(c); Buf k(key); a->load_key(cs, k, (int)key.size()); Bytes m = c.content(1 + c.length(700, 64)); Buf mb(m), full(32, c.byte()); a->gen(cs, full, mb, m.size(), 32); c.nontrivial(); c.cls("every tag length"); c.say("key %zu, message %zu", key.size(), m.size());
  for (int t = 1; t <= 32; t++) { Buf o((size_t)t, (uint8_t)~full.p()[t - 1]); a->gen(cs, o, mb, m.size(), t); o.check("tag"); mb.check("message"); char w[60]; snprintf(w, sizeof w, "%d-byte tag against the 32-byte tag", t); pbt::eq_bytes(w, o.p(), full.p(), (size_t)t); CHECK(a->val(cs, o, mb, m.size(), t) != 0, "own %d-byte tag of %zu bytes rejected", t, m.size()); }
}
PROPERTY(all_lengths, 1) {
  HmacSession s(c, hmac_builds()[0]); size_t base = c.below(20) * 64; Bytes d = c.content(base + 130); bool keys = c.chance(1, 3); c.nontrivial(); c.cls(keys ? "all key lengths to 200" : "window of 130 message lengths"); c.say("%s", keys ? "key lengths 0..200" : "message lengths");
  if (keys) { Bytes kk = c.content(200); Bytes m = c.content(1 + c.below(100)); for (size_t n = 0; n <= 200; n++) { s.key.assign(kk.begin(), kk.begin() + (long)n); s.load(c); s.gen(m, 32); } }
  else for (size_t n = base ? base : 1; n <= base + 130; n++) s.gen(Bytes(d.begin(), d.begin() + (long)n), 32);
}
PROPERTY(long_message, 0) { HmacSession s(c, hmac_builds()[0]); if (c.chance(1, 3)) { s.key = c.content(c.chance(1, 3) ? c.near_power(25) : c.length(300000, 64)); s.load(c); c.cls("long key"); } size_t n = c.chance(1, 3) ? c.near_power(25) : 1 + (size_t)c.range(0, 2) * 5000000 + c.length(90000, 64); Bytes m = c.content(n); c.nontrivial(n > 64); c.say("key %zu, message %zu", s.key.size(), n); c.cls(n > 8388608 ? "more than 8 MB" : "long"); Bytes t = s.gen(m, 32); s.val_check(t, m); t[c.below(32)] ^= 1; s.val_check(t, m); }
PROPERTY(huge_message, 0) {
  const HmacApi *a = hmac_builds()[0].api; Bytes key = c.keylike(20); Ctx cs(a->state, 5); Buf k(key); a->load_key(cs, k, 20); size_t n = ((size_t)1 << 29) - 130 + c.below(200); c.nontrivial(); c.say("message %zu", n); c.cls("around 2^32 bits");
  uint8_t *in = (uint8_t *)calloc(n, 1), d[32], w[32]; if (!in) _Exit(70); for (size_t i = 0; i < n; i += 4099) in[i] = (uint8_t)(i >> 12); in[n - 1] = 7; a->gen(cs, d, in, n, 32); ref::hmac_sha256(key.data(), 20, in, n, w); free(in); char t[80]; snprintf(t, sizeof t, "HMAC tag of %zu bytes", n); pbt::eq_bytes(t, d, w, 32);
}
// a byte length that needs more than 32 bits
PROPERTY(enormous_message, 0) {
  const HmacApi *a = hmac_builds()[0].api; Bytes key = c.keylike(20); Ctx cs(a->state, 5); Buf k(key); a->load_key(cs, k, 20); size_t n = ((size_t)1 << 32) - 70 + c.below(140); c.nontrivial(); c.say("message %zu", n); c.cls("about 4 GiB"); Ring in(n); in.fill(c.word(4)); Bytes d(32), w(32);
  in_threads(2, [&](size_t i) { if (i) ref::hmac_sha256(key.data(), 20, in.base, n, w.data()); else a->gen(cs, d.data(), in.base, n, 32); });
  pbt::eq_bytes("tag of a message of about 4 GiB", d, w);
}
// past 2^16 calls on one context
PROPERTY(many_calls, 0) { HmacSession s(c, any_build(c, hmac_builds())); many_calls(c, s, (int)c.range(66000, 72000)); }
