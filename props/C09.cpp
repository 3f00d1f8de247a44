// ChaCha: contexts are reusable, the block function is pure, the helpers are RFC 8439's.
#include "sessions.h"
PROPERTY(history, 6) {
  ChachaSession s(c, any_build(c, chacha_builds())); int n = (int)c.range(2, 24); c.nontrivial(); c.cls(s.b.name);
  for (int i = 0; i < n; i++) s.step(c, c.chance(1, 6) ? 3000 : 200);
}
// the same question asked twice, with other calls in between, has one answer (no model)
PROPERTY(ask_twice, 2) {
  const Build<ChachaApi> &b = any_build(c, chacha_builds()); Bytes key = c.keylike(32), nonce = c.keylike(12); Ctx s(b.api->state, c.word(2)); Buf k(key), v(nonce); b.api->init(s, k, v); c.nontrivial(); c.cls("repeated question");
  uint32_t ctr = ChachaSession::counter(c); Bytes in = c.content(c.length(400, 64)); bool blk = c.chance(1, 2); c.say("%s %s", b.name, blk ? "block" : "packet");
  auto ask = [&] { if (blk) { Buf o(64, c.byte()); b.api->block(s, ctr, (uint32_t *)o.p()); o.check("block"); return o.bytes(); } Buf ib(in), o(in.size(), c.byte()); b.api->packet(s, o, ib, in.size()); o.check("packet"); return o.bytes(); };
  Bytes a = ask(); int n = (int)c.range(1, 6); for (int i = 0; i < n; i++) { if (c.chance(1, 2)) { Buf o(64); b.api->block(s, ChachaSession::counter(c), (uint32_t *)o.p()); } else { Bytes x = c.content(c.length(300, 64)); Buf ib(x), o(x.size()); b.api->packet(s, o, ib, x.size()); } }
  pbt::eq_bytes(blk ? "second block call" : "second packet call", ask(), a);
}
// block n of a packet is the block function at n (first is 1)
PROPERTY(packet_is_blocks, 2) {
  const Build<ChachaApi> &b = any_build(c, chacha_builds()); Bytes key = c.keylike(32), nonce = c.keylike(12); Ctx s(b.api->state, c.word(2)); Buf k(key), v(nonce); b.api->init(s, k, v); size_t n = c.length(1500, 64); c.nontrivial(n > 0); c.say("%s %zu bytes", b.name, n);
  Buf z(Bytes(n, 0)), o(n, 1); b.api->packet(s, o, z, n); o.check("packet");
  for (size_t i = 0; i * 64 < n; i++) { Buf ks(64); b.api->block(s, (uint32_t)(i + 1), (uint32_t *)ks.p()); uint8_t w[64]; for (int j = 0; j < 16; j++) { uint32_t x; memcpy(&x, ks.p() + 4 * j, 4); for (int q = 0; q < 4; q++) w[4 * j + q] = (uint8_t)(x >> (8 * q)); } char t[60]; snprintf(t, sizeof t, "packet block %zu against chacha_block", i + 1); pbt::eq_bytes(t, o.p() + i * 64, w, std::min<size_t>(64, n - i * 64)); }
}
static uint32_t rotl(uint32_t x, int n) { return x << n | x >> (32 - n); }
PROPERTY(helpers, 2) {
  const Build<ChachaApi> &b = any_build(c, chacha_builds());
  if (c.chance(1, 2)) {
    Bytes in = c.keylike(64); uint32_t w[16]; memcpy(w, in.data(), 64); uint32_t &A = w[2], &B = w[7], &C = w[8], &D = w[13];
    A += B; D = rotl(D ^ A, 16); C += D; B = rotl(B ^ C, 12); A += B; D = rotl(D ^ A, 8); C += D; B = rotl(B ^ C, 7);
    Buf ib(in), ob(64, c.byte()); b.api->quarter((uint32_t *)ib.p(), (uint32_t *)ob.p()); ib.check("quarter round input"); ob.check("quarter round output"); Bytes want((uint8_t *)w, (uint8_t *)w + 64); pbt::eq_bytes("quarter round on words 2, 7, 8, 13", ob.bytes(), want); c.cls("quarter round"); c.nontrivial(); c.say("quarter round %s", pbt::hex(in).c_str());
  } else {
    size_t n = c.length(200, 4) / 4 * 4; Bytes in = c.content(n), want(n); for (size_t i = 0; i < n; i++) want[i] = in[(i & ~(size_t)3) + 3 - (i & 3)]; bool ip = c.chance(1, 3); c.cls(ip ? "byte swap in place" : "byte swap"); c.nontrivial(n > 0); c.say("byte swap %zu", n);
    if (ip) { Buf ob(n); if (n) memcpy(ob.p(), in.data(), n); b.api->byte_swap(ob, ob, (int)n); ob.check("byte_swap"); pbt::eq_bytes("byte_swap in place", ob.bytes(), want); }
    else { Buf ib(in), ob(n, c.byte()); b.api->byte_swap(ob, ib, (int)n); ib.check("byte_swap input"); ob.check("byte_swap output"); pbt::eq_bytes("byte_swap", ob.bytes(), want); }
  }
}
PROPERTY(long_history, 0) { ChachaSession s(c, any_build(c, chacha_builds())); int n = (int)c.range(200, 500); c.nontrivial(); c.say("%d calls", n); for (int i = 0; i < n; i++) s.step(c, c.chance(1, 30) ? 20000 : 130); }
// past 2^16 calls on one context
PROPERTY(many_calls, 0) { ChachaSession s(c, any_build(c, chacha_builds())); many_calls(c, s, (int)c.range(66000, 72000)); }
