// Sosemanuk: conformance of the first packet for every key size.
#include "sessions.h"
PROPERTY(message, 6) {
  SosemanukSession s(c, any_build(c, sosemanuk_builds())); Bytes in = c.content(c.length(4000, 16)); c.say("message %zu bytes", in.size());
  c.nontrivial(!in.empty()); c.cls(s.key.size() == 32 ? "full-size key" : s.key.size() == 16 ? "16-byte key" : "other key size"); c.cls(in.size() % 16 ? in.size() < 16 ? "shorter than a block" : "partial last block" : in.empty() ? "empty" : "whole blocks");
  Bytes ct = s.packet(in); c.digest(ct.data(), ct.size());
  if (c.chance(1, 3)) { s.load_key(c); s.load_iv(c); s.packet(in); c.cls("second key on the same context"); }
}
PROPERTY(every_key_size, 2) {
  Bytes key = c.keylike(32), iv = c.keylike(16), in = c.content(c.length(100, 16)); c.nontrivial(); c.cls("all 32 key sizes"); c.say("key prefix sizes 1..32, message %zu", in.size()); const Build<SosemanukApi> &b = any_build(c, sosemanuk_builds());
  for (int n = 1; n <= 32; n++) { Ctx s(b.api->state, (uint64_t)n); Buf k(Bytes(key.begin(), key.begin() + n)), v(iv), ib(in), ob(in.size(), 9); b.api->load_key(s, k, n); k.check("key"); b.api->load_iv(s, v); v.check("iv"); b.api->packet(s, ob, ib, in.size()); ob.check("output"); ref::Sosemanuk r; ref::sosemanuk_init(r, key.data(), (size_t)n, iv.data()); Bytes w(in); uint8_t ks[16]; for (size_t i = 0; i < in.size(); i += 16) { ref::sosemanuk_block(r, ks); for (size_t j = i; j < in.size() && j < i + 16; j++) w[j] ^= ks[j - i]; } char t[80]; snprintf(t, sizeof t, "message of %zu bytes under a %d-byte key", in.size(), n); pbt::eq_bytes(t, ob.bytes(), w); }
}
PROPERTY(all_lengths, 1) {
  const Build<SosemanukApi> &b = any_build(c, sosemanuk_builds()); Bytes key = c.keylike((size_t)c.range(1, 32)), iv = c.keylike(16); size_t base = c.below(60) * 16; Bytes in = c.content(base + 34), w(in); c.nontrivial(); c.cls("window of 34 lengths"); c.say("lengths %zu..%zu", base, base + 34);
  ref::Sosemanuk r; ref::sosemanuk_init(r, key.data(), key.size(), iv.data()); uint8_t ks[16]; for (size_t i = 0; i < in.size(); i += 16) { ref::sosemanuk_block(r, ks); for (size_t j = i; j < in.size() && j < i + 16; j++) w[j] ^= ks[j - i]; }
  for (size_t n = base; n <= base + 34; n++) { Ctx s(b.api->state, n); Buf k(key), v(iv), ib(Bytes(in.begin(), in.begin() + (long)n)), ob(n, 0x5a); b.api->load_key(s, k, (int)key.size()); b.api->load_iv(s, v); b.api->packet(s, ob, ib, n); ib.check("input"); ob.check("output"); char t[80]; snprintf(t, sizeof t, "message of %zu bytes", n); pbt::eq_bytes(t, ob.p(), w.data(), n); }
}
PROPERTY(long_message, 0) { SosemanukSession s(c, any_build(c, sosemanuk_builds())); size_t n = c.chance(1, 3) ? c.near_power(25) : (size_t)c.range(0, 3) * 2000000 + c.length(70000, 16); c.nontrivial(n > 16); c.say("message %zu bytes", n); c.cls(n > 1048576 ? "more than 65536 blocks" : "long"); s.packet(c.content(n)); }
PROPERTY(huge_message, 0) { SosemanukSession s(c, any_build(c, sosemanuk_builds())); size_t n = ((size_t)1 << 28) + c.below(5000); c.nontrivial(); c.say("message %zu bytes", n); c.cls("more than 2^24 blocks"); s.packet(Bytes(n, 0x5c)); }
// a size that needs more than 32 bits
PROPERTY(enormous_message, 0) {
  const Build<SosemanukApi> &b = any_build(c, sosemanuk_builds()); Bytes key = c.keylike((size_t)c.range(1, 32)), iv = c.keylike(16); size_t n = ((size_t)1 << 32) + 1 + c.below(3000); c.nontrivial(); c.say("message %zu bytes", n); c.cls("more than 4 GiB");
  Ring in(n), out(n), ks(n); in.fill(c.word(4)); Ctx s(b.api->state, 1); Buf k(key), v(iv); ref::Sosemanuk r; ref::sosemanuk_init(r, key.data(), key.size(), iv.data()); b.api->load_key(s, k, (int)key.size()); b.api->load_iv(s, v); bool ok = false;
  in_threads(2, [&](size_t i) { if (i) { std::vector<uint8_t> w(Ring::W); for (size_t j = 0; j < n; j += 16) { uint8_t *o = &w[j % Ring::W]; ref::sosemanuk_block(r, o); } memcpy(ks.base, w.data(), Ring::W); } else b.api->packet(s, out.base, in.base, n); });
  ok = true; size_t at = n - Ring::W + 64; for (; at < n; at++) if ((in.base[at] ^ out.base[at]) != ks.base[at]) { ok = false; break; }
  CHECK(ok, "%s: byte %zu of a message of %zu bytes is wrong", b.name, at, n);
}
