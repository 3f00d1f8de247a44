// AES-CTR: conformance of the first packet.
#include "sessions.h"
static Bytes ctr_ref(const Bytes &key, const Bytes &nonce, const Bytes &in) { return xored(in, ref::aes_ctr_block_stream(key.data(), nonce.data(), 1, in.size())); }

PROPERTY(message, 6) {
  CtrSession s(c, any_build(c, ctr_builds()));
  Bytes in = c.content(c.length(5000, 16)); c.say("message %zu bytes", in.size());
  c.nontrivial(!in.empty()); c.cls(s.b.name); c.cls(in.size() % 16 ? in.size() < 16 ? "shorter than a block" : "partial last block" : in.empty() ? "empty" : "whole blocks");
  Bytes ct = s.packet(in); c.digest(ct.data(), ct.size());
  // decrypting with a fresh context of any build returns the message
  if (c.chance(1, 3)) {
    const Build<AesCtrApi> &o = any_build(c, ctr_builds()); Ctx r(o.api->state, c.word(3)); Buf k(s.key), n(s.nonce), ib(ct), ob(ct.size(), c.byte());
    o.api->load_key(r, k); o.api->load_iv(r, n); o.api->packet(r, ob, ib, (int)ct.size()); ob.check("decryption"); c.cls("round trip");
    pbt::eq_bytes("decrypted message", ob.bytes(), in);
  }
}
// the six-round builds
PROPERTY(reduced_rounds, 1) {
  if (ctr6_builds().empty()) return; CtrSession s(c, any_build(c, ctr6_builds())); Bytes in = c.content(c.length(2000, 16)); c.say("message %zu bytes", in.size()); c.nontrivial(!in.empty()); c.cls("six rounds"); Bytes ct = s.packet(in); CtrSession r(c, any_build(c, ctr6_builds()), s.key, s.nonce); pbt::eq_bytes("decrypted message", r.packet(ct), in);
}
// every length in a window, from scratch each time
PROPERTY(all_lengths, 1) {
  const Build<AesCtrApi> &b = any_build(c, ctr_builds()); Bytes key = c.keylike(16), nonce = c.keylike(12); size_t base = c.below(40) * 64; Bytes in = c.content(base + 64), want = ctr_ref(key, nonce, in);
  c.nontrivial(); c.cls("window of 64 lengths"); c.say("%s lengths %zu..%zu", b.name, base, base + 64);
  for (size_t n = base; n <= base + 64; n++) {
    Ctx s(b.api->state, n); Buf k(key), v(nonce), ib(Bytes(in.begin(), in.begin() + (long)n)), ob(n, 0x5a);
    b.api->load_iv(s, v); b.api->load_key(s, k); b.api->packet(s, ob, ib, (int)n); ib.check("input"); ob.check("output");
    char t[80]; snprintf(t, sizeof t, "%s: message of %zu bytes", b.name, n); pbt::eq_bytes(t, ob.p(), want.data(), n);
  }
}
// long messages: the counter passes 2^16 blocks
PROPERTY(long_message, 0) {
  CtrSession s(c, any_build(c, ctr_builds())); size_t n = c.chance(1, 3) ? c.near_power(25) : (size_t)c.range(0, 3) * 700000 + c.length(70000, 16); Bytes in = c.content(n); c.nontrivial(n > 16); c.say("message %zu bytes", n); c.cls(n > 1048576 ? "more than 65536 blocks" : n > 4096 ? "more than 256 blocks" : "short");
  s.packet(in);
}
// one message whose counter passes 2^24 blocks; sampled blocks are compared
PROPERTY(huge_message, 0) {
  const Build<AesCtrApi> &b = any_build(c, ctr_builds()); Bytes key = c.keylike(16), nonce = c.keylike(12); size_t n = ((size_t)1 << 28) + 4096 + c.below(64);
  c.nontrivial(); c.say("%s message %zu bytes", b.name, n); c.cls("more than 2^24 blocks");
  uint8_t *in = (uint8_t *)calloc(n, 1), *out = (uint8_t *)malloc(n); if (!in || !out) _Exit(70);
  Ctx s(b.api->state, 1); Buf k(key), v(nonce); b.api->load_key(s, k); b.api->load_iv(s, v); b.api->packet(s, out, in, (int)n);
  size_t nb = n / 16; std::string bad;
  for (int i = 0; i < 4000 && bad.empty(); i++) {
    size_t blk = i < 300 ? nb - (size_t)i : i < 600 ? ((size_t)1 << (i % 25)) - 1 + (size_t)(i / 25 % 3) : (size_t)c.below(nb); if (blk * 16 >= n) continue;
    size_t l = n - blk * 16 < 16 ? n - blk * 16 : 16; Bytes w = ref::aes_ctr_block_stream(key.data(), nonce.data(), (uint32_t)(1 + blk), l);
    if (memcmp(w.data(), out + blk * 16, l)) bad = "keystream block " + std::to_string(blk) + " (counter " + std::to_string(blk + 1) + ") is wrong";
  }
  free(in); free(out); CHECK(bad.empty(), "%s: %s", b.name, bad.c_str());
}
// the largest sizes an int holds, every build: the counter passes 2^26, and byte and word indices 2^30
PROPERTY(enormous_message, 0) {
  Bytes key = c.keylike(16), nonce = c.keylike(12); size_t n = ((size_t)1 << 31) - 1 - c.below(40); c.nontrivial(); c.say("message %zu bytes, every build", n); c.cls("almost 2^31 bytes"); auto &bs = ctr_builds();
  Ring in(n); in.fill(c.word(4)); std::vector<std::unique_ptr<Ring>> out; std::vector<std::string> bad(bs.size()); for (auto &b : bs) { (void)b; out.emplace_back(new Ring(n)); }
  size_t from = (n - Ring::W + 16) / 16 * 16; Bytes ks = ref::aes_ctr_block_stream(key.data(), nonce.data(), (uint32_t)(1 + from / 16), n - from);
  std::vector<std::unique_ptr<Ctx>> st; for (auto &b : bs) st.emplace_back(new Ctx(b.api->state, 1));
  in_threads(bs.size(), [&](size_t i) { auto &b = bs[i]; Bytes k = key, v = nonce; b.api->load_key(*st[i], k.data()); b.api->load_iv(*st[i], v.data()); b.api->packet(*st[i], out[i]->base, in.base, (int)n); for (size_t j = from; j < n; j++) if ((in.base[j] ^ out[i]->base[j]) != ks[j - from]) { bad[i] = "byte " + std::to_string(j); break; } });
  for (size_t i = 0; i < bs.size(); i++) CHECK(bad[i].empty(), "%s: %s of a message of %zu bytes is wrong", bs[i].name, bad[i].c_str(), n);
}
