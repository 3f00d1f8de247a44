// Serpent subset used by Sosemanuk.
#include "sessions.h"
PROPERTY(block, 6) { SerpentSession s(c, any_build(c, serpent_builds())); int n = (int)c.range(1, 6); c.nontrivial(); c.cls(s.b.name); c.cls(s.key.size() == 32 ? "full-size key" : "padded key"); for (int i = 0; i < n; i++) { Bytes in = c.keylike(16); c.say("block %s", pbt::hex(in).c_str()); s.packet(in); } if (c.chance(1, 3)) { s.load(c); s.packet(c.keylike(16)); c.cls("second key on the same context"); } }
PROPERTY(every_key_size, 1) {
  const Build<SerpentApi> &b = any_build(c, serpent_builds()); Bytes key = c.keylike(32), in = c.keylike(16); c.nontrivial(); c.cls("all 32 key sizes"); c.say("%s key prefixes of %s", b.name, pbt::hex(key).c_str());
  uint32_t w[4]; for (int i = 0; i < 4; i++) w[i] = in[4 * i] | in[4 * i + 1] << 8 | in[4 * i + 2] << 16 | (uint32_t)in[4 * i + 3] << 24;
  for (int n = 1; n <= 32; n++) { Ctx s(b.api->state, (uint64_t)n); Buf k(Bytes(key.begin(), key.begin() + n)), ib(in), o(48, 3); b.api->key(s, k, n); k.check("key"); b.api->packet(s, (uint32_t *)o.p(), (uint32_t *)ib.p(), 16); ib.check("input"); o.check("output"); uint32_t rk[100], r[12]; ref::serpent_keys(key.data(), (size_t)n, rk); ref::serpent24_rounds(rk, w, r, r + 4, r + 8); Bytes want(48); for (int i = 0; i < 12; i++) for (int j = 0; j < 4; j++) want[4 * i + j] = (uint8_t)(r[i] >> (8 * j)); char t[80]; snprintf(t, sizeof t, "%s with a %d-byte key", b.name, n); pbt::eq_bytes(t, o.bytes(), want); }
}
// the two copies agree, and equal keys give equal results; no model
PROPERTY(copies, 2) {
  auto &bs = serpent_builds(); Bytes key = c.keylike((size_t)c.range(1, 32)), in = c.keylike(16), first; c.nontrivial(); c.cls("copies agree"); c.say("%zu-byte key", key.size());
  for (int rep = 0; rep < 2; rep++) for (auto &b : bs) { Ctx s(b.api->state, c.word(2)); Buf k(key), ib(in), o(48, c.byte()); if (c.chance(1, 2)) { Bytes other = c.keylike((size_t)c.range(1, 32)); Buf x(other); b.api->key(s, x, (int)other.size()); } b.api->key(s, k, (int)key.size()); if (c.chance(1, 2)) { Buf j(c.keylike(16)), jo(48); b.api->packet(s, (uint32_t *)jo.p(), (uint32_t *)j.p(), 16); } b.api->packet(s, (uint32_t *)o.p(), (uint32_t *)ib.p(), 16); if (first.empty()) first = o.bytes(); pbt::eq_bytes(b.name, o.bytes(), first); }
}
// the exposed S-box: bit i of the four outputs depends on bit i of the four inputs only, through Serpent's S2
PROPERTY(sbox, 2) {
  const Build<SerpentApi> &b = any_build(c, serpent_builds()); if (!b.api->sbox1) return; uint32_t w[4], r[4]; for (int i = 0; i < 4; i++) w[i] = c.chance(1, 4) ? 1u << c.below(32) : (uint32_t)c.word(4); memcpy(r, w, 16); c.nontrivial(); c.cls("S-box"); c.say("S-box %08x %08x %08x %08x", w[0], w[1], w[2], w[3]);
  uint32_t in[4]; memcpy(in, w, 16); b.api->sbox1(&w[0], &w[1], &w[2], &w[3]); ref::serpent_sbox(2, r);
  for (int i = 0; i < 4; i++) CHECK(w[i] == r[i], "%s: S-box word %d is %08x, expected %08x", b.name, i, w[i], r[i]);
  uint32_t d[4]; memcpy(d, in, 16); int col = (int)c.below(32); int word = (int)c.below(4); d[word] ^= 1u << col; b.api->sbox1(&d[0], &d[1], &d[2], &d[3]); uint32_t diff = 0; for (int i = 0; i < 4; i++) diff |= d[i] ^ w[i]; CHECK(diff == 1u << col, "%s: changing column %d changed columns %08x", b.name, col, diff);
}
// past 2^16 calls on one context
PROPERTY(many_calls, 0) { SerpentSession s(c, any_build(c, serpent_builds())); many_calls(c, s, (int)c.range(66000, 72000)); }
