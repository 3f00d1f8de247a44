// AES-CTR: the counter discipline over the packets of a session.
#include "sessions.h"

// A sender and a receiver of two generated builds see the same history of
// key loads, nonce loads and packets.  Every packet is compared with the
// model, which hands out counter blocks once each.
PROPERTY(session, 6) {
  auto &bs = !ctr6_builds().empty() && c.chance(1, 10) ? ctr6_builds() : ctr_builds(); CtrSession s(c, any_build(c, bs)), r(c, any_build(c, bs), s.key, s.nonce); bool other = r.b.api != s.b.api;
  int n = (int)c.range(1, 24), packets = 0, partial = 0;
  for (int i = 0; i < n; i++) {
    switch (c.pick({12, 1, 1})) {
      case 0: {
        Bytes in = c.content(c.length(c.chance(1, 6) ? 6000 : 200, 16)); c.say("packet %zu", in.size()); partial += in.size() % 16 != 0; packets++;
        Bytes ct = s.packet(in), pt = r.packet(ct); c.digest(ct.data(), ct.size());
        char t[80]; snprintf(t, sizeof t, "packet %d recovered by %s", i + 1, r.b.name); pbt::eq_bytes(t, pt, in); break;
      }
      case 1: s.nonce = c.chance(1, 3) ? s.nonce : c.keylike(12); r.nonce = s.nonce; c.say("nonce=%s", pbt::hex(s.nonce).c_str()); c.cls("nonce reload"); s.load_iv(); r.load_iv(); break;
      case 2: s.key = c.chance(1, 4) ? s.key : c.keylike(16); r.key = s.key; c.say("key=%s", pbt::hex(s.key).c_str()); c.cls("key reload"); s.load_key(); r.load_key(); break;
    }
  }
  c.nontrivial(packets >= 2); if (partial) c.cls("partial blocks"); if (other) c.cls("two builds");
}
// No keystream block appears twice in a session, seen without any model: the
// packets are zeros, so the outputs are the keystream.
PROPERTY(no_reuse, 2) {
  const Build<AesCtrApi> &b = any_build(c, ctr_builds()); Bytes key = c.keylike(16), nonce = c.keylike(12); Ctx cs(b.api->state, c.word(2)); Buf k(key), v(nonce);
  b.api->load_key(cs, k); b.api->load_iv(cs, v); c.say("%s zeros", b.name);
  std::vector<Bytes> seen; int n = (int)c.range(2, 20); c.nontrivial();
  for (int i = 0; i < n; i++) {
    size_t len = c.length(300, 16); Buf in(Bytes(len, 0)), out(len, 0x77); b.api->packet(cs, out, in, (int)len); c.say("%zu", len);
    for (size_t j = 0; j + 8 <= len; j += 16) { size_t m = len - j < 16 ? len - j : 16; Bytes blk(out.p() + j, out.p() + j + m); for (auto &o : seen) CHECK(memcmp(o.data(), blk.data(), std::min(o.size(), blk.size())), "%s packet %d reuses keystream %s", b.name, i + 1, pbt::hex(blk).c_str()); seen.push_back(blk); }
  }
}
// hundreds of packets, the counter passing 2^8 and 2^16 blocks
PROPERTY(long_session, 0) {
  CtrSession s(c, any_build(c, ctr_builds())); int n = (int)c.range(200, 500); bool big = c.chance(1, 2); c.nontrivial(); c.cls(big ? "more than 65536 blocks" : "hundreds of packets");
  for (int i = 0; i < n; i++) { if (big && c.chance(1, 16)) s.skip((size_t)c.range(1, 80000)); s.packet(c.content(c.length(c.chance(1, 20) ? 9000 : 70, 16))); }
  c.say("%d packets, block %u", n, s.ctr);
}
// the counter passes 2^24 blocks; packets on both sides are compared
PROPERTY(huge_session, 0) {
  CtrSession s(c, any_build(c, ctr_builds())); uint32_t target = 1u << 24; c.nontrivial(); c.cls("more than 2^24 blocks");
  while (s.ctr + 70000 < target) { s.skip((size_t)c.range(1000, 16000) * 1024 + c.below(16)); if (s.ctr < target) s.packet(c.content(c.length(100, 16))); if (s.ctr > target) break; }
  while (s.ctr < target + 400) s.packet(c.content(c.length(4000, 16) + 1));
  c.say("block %u", s.ctr);
}
// past 2^16 calls on one context
PROPERTY(many_calls, 0) { CtrSession s(c, any_build(c, ctr_builds())); many_calls(c, s, (int)c.range(66000, 72000)); }
