// ChaCha20/12/8: conformance.
#include "sessions.h"
PROPERTY(message, 6) {
  ChachaSession s(c, any_build(c, chacha_builds())); Bytes in = c.content(c.length(6000, 64)); c.say("message %zu bytes", in.size());
  c.nontrivial(!in.empty()); c.cls(s.b.name); c.cls(in.size() % 64 ? in.size() < 64 ? "shorter than a block" : "partial last block" : in.empty() ? "empty" : "whole blocks");
  Bytes ct = s.packet(in); c.digest(ct.data(), ct.size());
  ChachaSession r(s); Buf ib(ct), ob(ct.size(), c.byte()), k(s.key), n(s.nonce); Ctx f(s.b.api->state, c.word(2)); s.b.api->init(f, k, n); s.b.api->packet(f, ob, ib, ct.size()); ob.check("ChaCha output"); pbt::eq_bytes("applied twice", ob.bytes(), in);
}
PROPERTY(all_lengths, 1) {
  const Build<ChachaApi> &b = any_build(c, chacha_builds()); Bytes key = c.keylike(32), nonce = c.keylike(12); size_t base = c.below(20) * 64; Bytes in = c.content(base + 130), want = xored(in, ref::chacha_stream(key.data(), nonce.data(), 1, ChachaSession::rounds_of(b.name), in.size()));
  c.nontrivial(); c.cls("window of 130 lengths"); c.say("%s lengths %zu..%zu", b.name, base, base + 130);
  for (size_t n = base; n <= base + 130; n++) { Ctx s(b.api->state, n); Buf k(key), v(nonce), ib(Bytes(in.begin(), in.begin() + (long)n)), ob(n, 0x5a); b.api->init(s, k, v); b.api->packet(s, ob, ib, n); ib.check("input"); ob.check("output"); char t[80]; snprintf(t, sizeof t, "%s: message of %zu bytes", b.name, n); pbt::eq_bytes(t, ob.p(), want.data(), n); }
}
PROPERTY(long_message, 0) { ChachaSession s(c, any_build(c, chacha_builds())); size_t n = c.chance(1, 3) ? c.near_power(25) : (size_t)c.range(0, 4) * 1400000 + c.length(70000, 64); c.nontrivial(n > 64); c.say("message %zu bytes", n); c.cls(n > 4194304 ? "more than 65536 blocks" : n > 16384 ? "more than 256 blocks" : "short"); s.packet(c.content(n)); }
// a message length that a signed 32-bit byte count cannot hold
static void huge_sizes(Choices &c, size_t &n) { if (c.chance(2, 3)) { n = ((size_t)1 << 31) + c.below(3000); c.cls("2 GiB and more"); } }
// the block counter passes 2^24: sampled blocks are compared
PROPERTY(huge_message, 0) {
  const Build<ChachaApi> &b = any_build(c, chacha_builds()); int rounds = ChachaSession::rounds_of(b.name); Bytes key = c.keylike(32), nonce = c.keylike(12); size_t n = ((size_t)1 << 30) + 8192 + c.below(128); huge_sizes(c, n);
  c.nontrivial(); c.say("%s message %zu bytes", b.name, n); c.cls("more than 2^24 blocks"); uint8_t *in = (uint8_t *)calloc(n, 1), *out = (uint8_t *)malloc(n); if (!in || !out) _Exit(70);
  Ctx s(b.api->state, 1); Buf k(key), v(nonce); b.api->init(s, k, v); b.api->packet(s, out, in, n);
  size_t nb = (n + 63) / 64; std::string bad;
  for (int i = 0; i < 6000 && bad.empty(); i++) { size_t blk = i < 300 ? nb - 1 - (size_t)i : i < 700 ? ((size_t)1 << (i % 25)) - 1 + (size_t)(i / 25 % 3) : (size_t)c.below(nb); if (blk >= nb) continue; uint8_t w[64]; ref::chacha_block(key.data(), nonce.data(), (uint32_t)(blk + 1), rounds, w); if (memcmp(w, out + blk * 64, std::min<size_t>(64, n - blk * 64))) bad = "keystream block " + std::to_string(blk + 1) + " is wrong"; }
  free(in); free(out); CHECK(bad.empty(), "%s: %s", b.name, bad.c_str());
}
// sizes that need more than 32 bits, all three round counts
PROPERTY(enormous_message, 0) {
  Bytes key = c.keylike(32), nonce = c.keylike(12); size_t n = ((size_t)1 << 32) + 1 + c.below(3000); c.nontrivial(); c.say("message %zu bytes, every round count", n); c.cls("more than 4 GiB"); auto &bs = chacha_builds();
  Ring in(n); in.fill(c.word(4)); std::vector<std::unique_ptr<Ring>> out; std::vector<std::unique_ptr<Ctx>> st; std::vector<std::string> bad(bs.size()); for (auto &b : bs) { out.emplace_back(new Ring(n)); st.emplace_back(new Ctx(b.api->state, 1)); }
  size_t from = (n - Ring::W + 64) / 64 * 64;
  in_threads(bs.size(), [&](size_t i) {
    auto &b = bs[i]; int rounds = ChachaSession::rounds_of(b.name); Bytes k = key, v = nonce; b.api->init(*st[i], k.data(), v.data()); b.api->packet(*st[i], out[i]->base, in.base, n); uint8_t ks[64];
    for (size_t j = from; j < n && bad[i].empty(); j += 64) { ref::chacha_block(key.data(), nonce.data(), (uint32_t)(1 + j / 64), rounds, ks); for (size_t l = 0; l < 64 && j + l < n; l++) if ((in.base[j + l] ^ out[i]->base[j + l]) != ks[l]) { bad[i] = "byte " + std::to_string(j + l); break; } }
  });
  for (size_t i = 0; i < bs.size(); i++) CHECK(bad[i].empty(), "%s: %s of a message of %zu bytes is wrong", bs[i].name, bad[i].c_str(), n);
}
