// HC-128: conformance of the first packet.
#include "sessions.h"
PROPERTY(message, 6) {
  Hc128Session s(c, any_build(c, hc128_builds())); Bytes iv = s.iv, in = c.content(c.length(9000, c.chance(1, 4) ? 2048 : 4)); bool ip = c.chance(1, 4); c.say("message %zu bytes%s", in.size(), ip ? " in place" : "");
  c.nontrivial(!in.empty()); c.cls(in.size() % 4 ? in.size() < 4 ? "shorter than a word" : "partial last word" : in.empty() ? "empty" : "whole words"); if (ip) c.cls("in place"); if (in.size() > 4096) c.cls("more than 1024 words");
  Bytes ct = s.packet(in, ip); c.digest(ct.data(), ct.size());
  if (c.chance(1, 3)) { Hc128Session r(c, any_build(c, hc128_builds()), s.key, s.iv); pbt::eq_bytes("decrypted message", r.packet(ct, c.chance(1, 2)), in); c.cls("round trip"); }
}
PROPERTY(all_lengths, 1) {
  const Build<Hc128Api> &b = any_build(c, hc128_builds()); Bytes key = c.keylike(16), iv = c.keylike(16); size_t base = c.below(140) * 32; Bytes in = c.content(base + 34); c.nontrivial(); c.cls("window of 34 lengths"); c.say("lengths %zu..%zu", base, base + 34);
  for (size_t n = base; n <= base + 34; n++) { Hc128Session s(c, b, key, iv); s.packet(Bytes(in.begin(), in.begin() + (long)n), c.chance(1, 4)); }
}
PROPERTY(long_message, 0) { Hc128Session s(c, any_build(c, hc128_builds())); size_t n = c.chance(1, 3) ? c.near_power(25) : (size_t)c.range(0, 3) * 3000000 + c.length(70000, 4); c.nontrivial(n > 4); c.say("message %zu bytes", n); c.cls(n > 1048576 ? "more than 2^18 words" : "long"); s.packet(c.content(n), c.chance(1, 3)); }
PROPERTY(huge_message, 0) { Hc128Session s(c, any_build(c, hc128_builds())); size_t n = ((size_t)1 << 28) + c.below(5000); c.nontrivial(); c.say("message %zu bytes", n); c.cls("more than 2^26 words"); s.packet(Bytes(n, 0x5c), c.chance(1, 2)); }
// a size that needs more than 32 bits
PROPERTY(enormous_message, 0) {
  const Build<Hc128Api> &b = any_build(c, hc128_builds()); Bytes key = c.keylike((size_t)16), iv = c.keylike(16); size_t n = ((size_t)1 << 32) + 1 + c.below(3000); c.nontrivial(); c.say("message %zu bytes", n); c.cls("more than 4 GiB");
  Ring in(n), out(n), ks(n); in.fill(c.word(4)); Ctx s(b.api->state, 1); Buf k(key), v(iv); ref::Hc128 r; ref::hc128_init(r, key.data(), iv.data()); b.api->init(s, k, v); bool ok = false;
  in_threads(2, [&](size_t i) { if (i) { std::vector<uint8_t> w(Ring::W); for (size_t j = 0; j < n; j += 4) { uint8_t *o = &w[j % Ring::W]; uint32_t w = ref::hc128_word(r); for (int j = 0; j < 4; j++) o[j] = (uint8_t)(w >> 8 * j); } memcpy(ks.base, w.data(), Ring::W); } else b.api->packet(s, out.base, in.base, n); });
  ok = true; size_t at = n - Ring::W + 64; for (; at < n; at++) if ((in.base[at] ^ out.base[at]) != ks.base[at]) { ok = false; break; }
  CHECK(ok, "%s: byte %zu of a message of %zu bytes is wrong", b.name, at, n);
}
