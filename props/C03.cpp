// AES-CFB: conformance of the first packet, in both directions.
#include "sessions.h"
static bool reduced(const Build<AesCfbApi> &b) { for (auto &x : cfb6_builds()) if (x.api == b.api) return true; return false; }
static Build<AesCfbApi> gen_build(Choices &c) { return !cfb6_builds().empty() && c.chance(1, 4) ? any_build(c, cfb6_builds()) : any_build(c, cfb_builds()); }
static int first_of(const Build<AesCfbApi> &b) { return reduced(b) ? 5 : 1; }

PROPERTY(message, 6) {
  Build<AesCfbApi> b = gen_build(c); CfbSession s(c, b, first_of(b)); Bytes iv = s.reg, in = c.content(c.length(5000, 16)); c.say("message %zu bytes", in.size());
  c.nontrivial(!in.empty()); c.cls(b.name); c.cls(in.size() % 16 ? in.size() < 16 ? "shorter than a block" : "partial last block" : in.empty() ? "empty" : "whole blocks");
  Bytes ct = s.packet(in, false); c.digest(ct.data(), ct.size());
  Build<AesCfbApi> o = reduced(b) ? any_build(c, cfb6_builds()) : any_build(c, cfb_builds()); CfbSession r(c, o, s.key, iv, first_of(o)); Bytes pt = r.packet(ct, true);
  pbt::eq_bytes("decrypted message", pt, in);
}
PROPERTY(all_lengths, 1) {
  Build<AesCfbApi> b = gen_build(c); Bytes key = c.keylike(16), iv = c.keylike(16); size_t base = c.below(40) * 64; Bytes in = c.content(base + 64); bool dec = c.chance(1, 2);
  c.nontrivial(); c.cls("window of 64 lengths"); c.say("%s %s lengths %zu..%zu", b.name, dec ? "decrypt" : "encrypt", base, base + 64);
  for (size_t n = base; n <= base + 64; n++) { CfbSession s(c, b, key, iv, first_of(b)); s.packet(Bytes(in.begin(), in.begin() + (long)n), dec); }
}
PROPERTY(long_message, 0) {
  Build<AesCfbApi> b = gen_build(c); CfbSession s(c, b, first_of(b)); size_t n = c.chance(1, 3) ? c.near_power(25) : (size_t)c.range(0, 3) * 500000 + c.length(70000, 16); bool dec = c.chance(1, 2); c.nontrivial(n > 16); c.say("message %zu bytes", n); c.cls(n > 1048576 ? "more than 65536 blocks" : "long");
  s.packet(c.content(n), dec);
}
// 256 MB: any block can be checked from the ciphertext before it
PROPERTY(huge_message, 0) {
  const Build<AesCfbApi> &b = any_build(c, cfb_builds()); Bytes key = c.keylike(16), iv = c.keylike(16); size_t n = ((size_t)1 << 28) + 4096 + c.below(64); bool dec = c.chance(1, 2);
  c.nontrivial(); c.say("%s %s %zu bytes", b.name, dec ? "decrypt" : "encrypt", n); c.cls("more than 2^24 blocks");
  uint8_t *in = (uint8_t *)calloc(n, 1), *out = (uint8_t *)malloc(n); if (!in || !out) _Exit(70);
  for (size_t i = 0; i < n; i += 4099) in[i] = (uint8_t)(i >> 12);
  Ctx s(b.api->state, 1); Buf k(key), v(iv); b.api->init(s, k, v); b.api->packet(s, out, in, (int)n, dec ? 1 : 0);
  ref::Aes a; ref::aes_key(a, key.data()); const uint8_t *ct = dec ? in : out; size_t nb = (n + 15) / 16; std::string bad;
  for (int i = 0; i < 6000 && bad.empty(); i++) {
    size_t blk = i < 300 ? nb - 1 - (size_t)i : i < 600 ? ((size_t)1 << (i % 25)) - 1 + (size_t)(i / 25 % 3) : (size_t)c.below(nb); if (blk >= nb) continue;
    uint8_t ks[16]; ref::aes_enc(a, blk ? ct + 16 * (blk - 1) : iv.data(), ks);
    for (size_t j = blk * 16; j < n && j < blk * 16 + 16; j++) if (out[j] != (uint8_t)(in[j] ^ ks[j - blk * 16])) bad = "byte " + std::to_string(j) + " is wrong";
  }
  free(in); free(out); CHECK(bad.empty(), "%s: %s", b.name, bad.c_str());
}
// the largest sizes an int holds, every build, both directions: the end of the message obeys the feedback equation
PROPERTY(enormous_message, 0) {
  Bytes key = c.keylike(16), iv = c.keylike(16); size_t n = ((size_t)1 << 31) - 1 - c.below(40); c.nontrivial(); c.say("message %zu bytes, every build", n); c.cls("almost 2^31 bytes"); auto &all = cfb_builds(); std::vector<Build<AesCfbApi>> bs; for (auto &b : all) if (!strncmp(b.name, "cfb_r6", 6) == 0) bs.push_back(b);
  Ring in(n); in.fill(c.word(4)); std::vector<std::unique_ptr<Ring>> out; std::vector<std::unique_ptr<Ctx>> st; for (size_t i = 0; i < 2 * bs.size(); i++) { out.emplace_back(new Ring(n)); st.emplace_back(new Ctx(bs[i / 2].api->state, 1)); }
  size_t from = (n - Ring::W + 32) / 16 * 16; std::vector<std::string> bad(2 * bs.size()); ref::Aes a; ref::aes_key(a, key.data());
  in_threads(2 * bs.size(), [&](size_t i) {
    auto &b = bs[i / 2]; int mode = (int)(i & 1); Bytes k = key, v = iv; b.api->init(*st[i], k.data(), v.data()); b.api->packet(*st[i], out[i]->base, in.base, (int)n, mode);
    const uint8_t *x = in.base, *y = out[i]->base, *ct = mode ? x : y; uint8_t ks[16];
    for (size_t j = from; j < n && bad[i].empty(); j += 16) { ref::aes_enc(a, ct + j - 16, ks); for (size_t l = 0; l < 16 && j + l < n; l++) if ((x[j + l] ^ y[j + l]) != ks[l]) { bad[i] = "byte " + std::to_string(j + l); break; } }
  });
  for (size_t i = 0; i < 2 * bs.size(); i++) CHECK(bad[i].empty(), "%s: %s of an %scrypted message of %zu bytes is wrong", bs[i / 2].name, bad[i].c_str(), i & 1 ? "de" : "en", n);
}
