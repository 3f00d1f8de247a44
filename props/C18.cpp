// MD5: any split of a message gives the digest of RFC 1321.
#include "sessions.h"
PROPERTY(split, 6) {
  Md5Session s(c, md5_builds()[0]); Bytes msg = c.content(c.length(3000, 64)); s.init(); size_t at = 0; int pieces = 0; bool big = c.chance(1, 2); c.say("%zu bytes:", msg.size());
  while (at < msg.size() && pieces < 60) { size_t left = msg.size() - at, n; switch (c.pick({4, 3, 2, 1})) { case 0: n = c.below(big ? left + 1 : (left < 70 ? left : 70) + 1); break; case 1: { size_t to = 64 - at % 64; n = to + (size_t)c.below(3) - 1; break; } case 2: n = 1; break; default: n = 64 * (1 + c.below(4)); } if (n > left) n = left; c.say("%zu", n); if (!n) c.cls("empty piece"); s.update(Bytes(msg.begin() + (long)at, msg.begin() + (long)(at + n)), c.chance(1, 4) ? c.below(8) : 0); at += n; pieces++; }
  if (at < msg.size()) { s.update(Bytes(msg.begin() + (long)at, msg.end())); pieces++; }
  c.nontrivial(pieces > 1); c.cls(pieces > 1 ? "several pieces" : "one piece"); s.final("incremental"); s.oneshot(msg); size_t r = msg.size() % 64; c.cls(r >= 56 ? "length field needs another block" : "length field fits");
}
// a context is reused through many messages, some abandoned half-way
PROPERTY(history, 4) { Md5Session s(c, md5_builds()[0]); int n = (int)c.range(3, 40); for (int i = 0; i < n; i++) s.step(c, c.chance(1, 8) ? 4000 : 150); c.nontrivial(s.packets > 1); c.cls("context reused"); }
PROPERTY(all_splits, 1) {
  size_t n = c.below(200); Bytes m = c.content(n); Md5Session s(c, md5_builds()[0]); c.nontrivial(); c.cls("every two-piece split"); c.say("%zu bytes", n);
  for (size_t i = 0; i <= n; i++) { s.init(); s.update(Bytes(m.begin(), m.begin() + (long)i)); s.update(Bytes(m.begin() + (long)i, m.end())); s.final("two pieces"); }
}
PROPERTY(all_lengths, 1) { Md5Session s(c, md5_builds()[0]); size_t base = c.below(40) * 64; Bytes d = c.content(base + 130); c.nontrivial(); c.cls("window of 130 lengths"); c.say("lengths %zu..", base); for (size_t n = base; n <= base + 130; n++) s.oneshot(Bytes(d.begin(), d.begin() + (long)n)); }
PROPERTY(long_message, 0) { Md5Session s(c, md5_builds()[0]); size_t n = c.chance(1, 3) ? c.near_power(25) : (size_t)c.range(0, 3) * 5000000 + c.length(90000, 64); c.nontrivial(n > 64); c.say("%zu bytes", n); c.cls(n > 8388608 ? "more than 8 MB" : "long"); Bytes m = c.content(n); if (c.chance(1, 2)) s.oneshot(m); else { s.init(); size_t at = 0; while (at < n) { size_t k = (size_t)c.range(1, 3000000); if (k > n - at) k = n - at; s.update(Bytes(m.begin() + (long)at, m.begin() + (long)(at + k))); at += k; } s.final("large pieces"); } }
// one update whose length or block index comes close to the end of 32 bits, after a first piece of any size
PROPERTY(huge_call, 0) {
  const Md5Api *a = md5_builds()[0].api; int kind = (int)c.pick({4, 1, 1}); size_t n = kind == 0 ? ((size_t)1 << 32) - 1 - c.below(70) : kind == 1 ? ((size_t)1 << 29) + c.below(70) : ((size_t)1 << 31) - 35 + c.below(70), p = c.below(65); if (kind == 0 && c.chance(2, 3)) { n = ((size_t)1 << 32) - 1 - c.below(3); p = 3 + c.below(3); }
  c.nontrivial(); c.cls(kind == 0 ? "an update of almost 4 GiB" : kind == 1 ? "an update of 512 MiB" : "an update of 2 GiB"); c.say("%zu bytes after %zu", n, p);
  uint8_t *in = (uint8_t *)calloc(n, 1), w[16]; if (!in) _Exit(70); for (size_t i = 0; i < 50; i++) { in[i * (n / 51)] = (uint8_t)(i + 1); in[n - 1 - i] = (uint8_t)(i * 3 + 1); }
  Ctx cs(a->state, 9); Buf d(16, 1); Bytes first = c.content(p); ref::Md5 r; ref::md5_init(r); ref::md5_update(r, first.data(), p); ref::md5_update(r, in, n); ref::md5_final(r, w);
  Buf fb(first); a->init(cs); a->update(cs, fb, (uint32_t)p); a->update(cs, in, (uint32_t)n); a->final(d, cs); free(in); char t[80]; snprintf(t, sizeof t, "MD5 of %zu + %zu bytes", p, n); d.check("digest"); pbt::eq_bytes(t, d.p(), w, 16);
}
// the bit count passes 2^32, in one call, in equal pieces, or by a small piece
PROPERTY(huge_message, 0) {
  const Md5Api *a = md5_builds()[0].api; size_t n = ((size_t)1 << 29) - 70 + c.below(140); int how = (int)c.below(4); if (how == 3) n += 3ull << 29; c.nontrivial(); c.cls(n >> 29 ? "at least 2^32 bits" : "just below 2^32 bits"); c.say("%zu bytes, way %d", n, how);
  uint8_t *in = (uint8_t *)calloc(n < (1u << 30) ? n : (1u << 30), 1), w[16]; size_t have = n < (1u << 30) ? n : (1u << 30); if (!in) _Exit(70); for (size_t i = 0; i < have; i += 4099) in[i] = (uint8_t)(i >> 12);
  Ctx cs(a->state, 9); Buf d(16, 1); ref::Md5 r; ref::md5_init(r); if (how) a->init(cs);
  if (how == 0) { a->packet(cs, d, in, (uint32_t)n); ref::md5_update(r, in, n); }
  else if (how == 3) { size_t left = n; while (left) { size_t k = left < have ? left : have; a->update(cs, in, (uint32_t)k); ref::md5_update(r, in, k); left -= k; } a->final(d, cs); }
  else { size_t at = 0; while (at < n) { size_t k = how == 1 ? (size_t)c.range(1, 200u << 20) : (n - at > 200 ? n - at - 150 : (size_t)c.range(1, 60)); if (k > n - at) k = n - at; a->update(cs, in + at, (uint32_t)k); ref::md5_update(r, in + at, k); at += k; } a->final(d, cs); }
  ref::md5_final(r, w); free(in); char t[80]; snprintf(t, sizeof t, "MD5 of %zu bytes (way %d)", n, how); d.check("digest"); pbt::eq_bytes(t, d.p(), w, 16);
}
// past 2^16 calls on one context
PROPERTY(many_calls, 0) { Md5Session s(c, any_build(c, md5_builds())); many_calls(c, s, (int)c.range(66000, 72000)); }
