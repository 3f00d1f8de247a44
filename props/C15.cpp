// SHA-256: both copies against FIPS 180-4.
#include "sessions.h"
#include <memory>
PROPERTY(message, 6) {
  ShaSession s(c, any_build(c, sha_builds())); Bytes msg = c.content(c.length(6000, 64)); size_t off = c.chance(1, 3) ? c.below(8) : 0; c.say("%s %zu bytes (offset %zu)", s.b.name, msg.size(), off);
  c.nontrivial(!msg.empty()); c.cls(s.b.name); size_t r = msg.size() % 64; c.cls(msg.empty() ? "empty" : r >= 56 ? "length field needs another block" : r == 55 ? "exactly one padding byte" : r ? "partial last block" : "whole blocks");
  s.hash(msg, off, c.chance(1, 3) ? c.below(8) : 0);
}
// several messages in a row on both copies; earlier calls leave no trace
PROPERTY(history, 2) {
  std::vector<std::unique_ptr<ShaSession>> ss; for (auto &b : sha_builds()) ss.emplace_back(new ShaSession(c, b)); int n = (int)c.range(2, 12); c.nontrivial(); c.cls("several messages");
  Bytes first; for (int i = 0; i < n; i++) { Bytes msg = i && c.chance(1, 4) ? first : c.content(c.length(c.chance(1, 6) ? 20000 : 260, 64)); if (!i) first = msg; c.say("%zu", msg.size()); ss[c.below(ss.size())]->hash(msg); }
  for (auto &s : ss) s->hash(first);
}
// every length of a window, both copies
PROPERTY(all_lengths, 1) {
  size_t base = c.below(40) * 64; Bytes d = c.content(base + 130); std::vector<std::unique_ptr<ShaSession>> ss; for (auto &b : sha_builds()) ss.emplace_back(new ShaSession(c, b)); c.nontrivial(); c.cls("window of 130 lengths"); c.say("lengths %zu..%zu", base, base + 130);
  for (size_t n = base; n <= base + 130; n++) for (auto &s : ss) s->hash(Bytes(d.begin(), d.begin() + (long)n));
}
// one changed bit changes the digest, and the copies agree with each other (no model)
PROPERTY(differential, 1) {
  auto &bs = sha_builds(); Bytes m = c.content(1 + c.length(3000, 64)); c.nontrivial(); c.cls("copies compared"); c.say("%zu bytes", m.size()); Bytes d[2];
  for (int k = 0; k < 2; k++) { for (size_t i = 0; i < bs.size(); i++) { Buf in(m), o(32, c.byte()); bs[i].api->digest(o, in, m.size()); if (i) pbt::eq_bytes("second copy", o.bytes(), d[k]); else d[k] = o.bytes(); } size_t bit = c.below(m.size() * 8); m[bit / 8] ^= (uint8_t)(1u << (bit & 7)); }
  CHECK(d[0] != d[1], "two different messages of %zu bytes have one digest", m.size());
}
PROPERTY(long_message, 0) { ShaSession s(c, any_build(c, sha_builds())); size_t n = c.chance(1, 3) ? c.near_power(25) : (size_t)c.range(0, 3) * 5000000 + c.length(90000, 64); c.nontrivial(n > 64); c.say("%s %zu bytes", s.b.name, n); c.cls(n > 8388608 ? "more than 8 MB" : "long"); s.hash(c.content(n)); }
// the bit length needs more than 32 bits
PROPERTY(huge_message, 0) {
  const Build<ShaApi> &b = sha_builds()[c.below(sha_builds().size())]; size_t n = ((size_t)1 << 29) - 70 + c.below(140); if (c.chance(1, 3)) n += (size_t)1 << 29; c.nontrivial(); c.say("%s %zu bytes", b.name, n); c.cls(n >> 29 ? "at least 2^32 bits" : "just below 2^32 bits");
  uint8_t *in = (uint8_t *)calloc(n, 1), d[32], w[32]; if (!in) _Exit(70); for (size_t i = 0; i < n; i += 4099) in[i] = (uint8_t)(i >> 12); in[n - 1] = 7;
  b.api->digest(d, in, n); ref::sha256(in, n, w); free(in); char t[80]; snprintf(t, sizeof t, "%s digest of %zu bytes", b.name, n); pbt::eq_bytes(t, d, w, 32);
}
// a byte length that needs more than 32 bits, both copies
PROPERTY(enormous_message, 0) {
  auto &bs = sha_builds(); size_t n = ((size_t)1 << 32) + c.below(200); c.nontrivial(); c.say("%zu bytes, both copies", n); c.cls("more than 4 GiB"); Ring in(n); in.fill(c.word(4)); std::vector<Bytes> d(bs.size() + 1, Bytes(32));
  in_threads(bs.size() + 1, [&](size_t i) { if (i == bs.size()) ref::sha256(in.base, n, d[i].data()); else bs[i].api->digest(d[i].data(), in.base, n); });
  for (size_t i = 0; i < bs.size(); i++) { char t[80]; snprintf(t, sizeof t, "%s digest of %zu bytes", bs[i].name, n); pbt::eq_bytes(t, d[i], d[bs.size()]); }
}
// past 2^16 calls on one context
PROPERTY(many_calls, 0) { ShaSession s(c, any_build(c, sha_builds())); many_calls(c, s, (int)c.range(66000, 72000)); }
