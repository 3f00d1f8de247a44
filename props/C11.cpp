// Rabbit: conformance of the first packet, with and without an IV.
#include "sessions.h"
PROPERTY(message, 6) {
  RabbitSession s(c, any_build(c, rabbit_builds())); Bytes in = c.content(c.length(4000, 16)); c.say("message %zu bytes", in.size());
  c.nontrivial(!in.empty()); c.cls(s.has_iv ? "with IV" : "without IV"); c.cls(in.size() % 16 ? in.size() < 16 ? "shorter than a block" : "partial last block" : in.empty() ? "empty" : "whole blocks");
  Bytes ct = s.packet(in); c.digest(ct.data(), ct.size());
  if (c.chance(1, 3)) { RabbitSession r(c, any_build(c, rabbit_builds()), s.key); if (s.has_iv) { r.iv = s.iv; r.load_iv(c); } pbt::eq_bytes("decrypted message", r.packet(ct), in); c.cls("round trip"); }
}
// several IVs under one key, each starting the keystream the RFC gives for it
PROPERTY(many_ivs, 3) {
  RabbitSession s(c, any_build(c, rabbit_builds()), RabbitEdge::key(c)); int n = (int)c.range(2, 12); c.nontrivial(); c.cls("several IVs under one key");
  for (int i = 0; i < n; i++) { s.iv = RabbitEdge::iv(c, s.master); s.load_iv(c); if (c.chance(3, 4)) { Bytes in = c.content(c.length(200, 16)); c.say("packet %zu", in.size()); s.packet(in); } }
}
PROPERTY(all_lengths, 1) {
  const Build<RabbitApi> &b = any_build(c, rabbit_builds()); Bytes key = c.keylike(16), iv = c.keylike(8); bool with = c.chance(1, 2); size_t base = c.below(60) * 16; Bytes in = c.content(base + 34); c.nontrivial(); c.cls("window of 34 lengths"); c.say("lengths %zu..%zu", base, base + 34);
  for (size_t n = base; n <= base + 34; n++) { RabbitSession s(c, b, key); if (with) { s.iv = iv; s.load_iv(c); } s.packet(Bytes(in.begin(), in.begin() + (long)n)); }
}
// long keystreams: the counters (and their carries) run through many values
PROPERTY(long_message, 0) { RabbitSession s(c, any_build(c, rabbit_builds())); size_t n = c.chance(1, 3) ? c.near_power(25) : (size_t)c.range(0, 3) * 2000000 + c.length(70000, 16); c.nontrivial(n > 16); c.say("message %zu bytes", n); c.cls(n > 1048576 ? "more than 65536 blocks" : "long"); s.packet(c.content(n)); }
PROPERTY(huge_message, 0) { RabbitSession s(c, any_build(c, rabbit_builds())); size_t n = ((size_t)1 << 28) + c.below(5000); c.nontrivial(); c.say("message %zu bytes", n); c.cls("more than 2^24 blocks"); s.packet(Bytes(n, 0x5c)); }
// a size that needs more than 32 bits
PROPERTY(enormous_message, 0) {
  const Build<RabbitApi> &b = any_build(c, rabbit_builds()); Bytes key = c.keylike((size_t)16), iv = c.keylike(8); size_t n = ((size_t)1 << 32) + 1 + c.below(3000); c.nontrivial(); c.say("message %zu bytes", n); c.cls("more than 4 GiB");
  Ring in(n), out(n), ks(n); in.fill(c.word(4)); Ctx s(b.api->state, 1); Buf k(key), v(iv); ref::Rabbit r; uint8_t rk[16], rv[8]; for (int j = 0; j < 16; j++) rk[j] = key[15 - j]; for (int j = 0; j < 8; j++) rv[j] = iv[7 - j]; ref::rabbit_key(r, rk); ref::rabbit_iv(r, rv); b.api->load_key(s, k); b.api->load_iv(s, v); bool ok = false;
  in_threads(2, [&](size_t i) { if (i) { std::vector<uint8_t> w(Ring::W); for (size_t j = 0; j < n; j += 16) { uint8_t *o = &w[j % Ring::W]; uint8_t t[16]; ref::rabbit_block(r, t); for (int j = 0; j < 16; j++) o[j] = t[15 - j]; } memcpy(ks.base, w.data(), Ring::W); } else b.api->packet(s, out.base, in.base, n); });
  ok = true; size_t at = n - Ring::W + 64; for (; at < n; at++) if ((in.base[at] ^ out.base[at]) != ks.base[at]) { ok = false; break; }
  CHECK(ok, "%s: byte %zu of a message of %zu bytes is wrong", b.name, at, n);
}
