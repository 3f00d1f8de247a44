// AEGIS-128: specification and round trip.
#include "sessions.h"
static void one(Choices &c, AegisSession &s, AegisSession &r, size_t maxlen) {
  Bytes iv = c.keylike(16), ad = c.content(c.length(maxlen, 16)), pt = c.content(c.length(maxlen, 16)), ct, tag; c.say("ad=%zu n=%zu", ad.size(), pt.size());
  s.enc_check(iv, ad, pt, ct, tag); r.dec_check(iv, ad, ct, tag, pt); c.digest(tag.data(), 16);
  c.nontrivial(!ad.empty() || !pt.empty()); c.cls(pt.empty() ? "empty message" : pt.size() < 16 ? "message shorter than a block" : pt.size() % 16 ? "partial last block" : "whole blocks"); c.cls(ad.empty() ? "no associated data" : ad.size() % 16 ? "partial associated data" : "whole associated data");
}
PROPERTY(packet, 6) { AegisSession s(c, any_build(c, aegis_builds())), r(c, any_build(c, aegis_builds()), s.key); c.cls(s.b.name); one(c, s, r, 3000); }
// one key, many packets; encryptions and decryptions mixed on one context
PROPERTY(many, 3) { AegisSession s(c, any_build(c, aegis_builds())); AegisSession r(c, any_build(c, aegis_builds()), s.key); int n = (int)c.range(2, 10); c.cls("several packets under one key"); for (int i = 0; i < n; i++) { if (c.chance(1, 4)) one(c, s, s, 200); else if (c.chance(1, 2)) one(c, s, r, 200); else { s.step(c, 150); r.key = s.key; r.load(c); } } }
PROPERTY(all_lengths, 1) {
  AegisSession s(c, any_build(c, aegis_builds())); Bytes iv = c.keylike(16); size_t base = c.below(20) * 16; Bytes d = c.content(base + 48), a = c.content(base + 48); bool vary_ad = c.chance(1, 2); size_t fixed = c.below(40); c.nontrivial(); c.cls("window of 48 lengths"); c.say("lengths %zu..%zu of the %s", base, base + 48, vary_ad ? "associated data" : "message");
  for (size_t n = base; n <= base + 48; n++) { Bytes ad(a.begin(), a.begin() + (long)(vary_ad ? n : fixed)), pt(d.begin(), d.begin() + (long)(vary_ad ? fixed : n)), ct, tag; s.enc_check(iv, ad, pt, ct, tag); s.dec_check(iv, ad, ct, tag, pt); }
}
PROPERTY(long_packet, 0) { AegisSession s(c, any_build(c, aegis_builds())), r(c, any_build(c, aegis_builds()), s.key); c.cls("up to megabytes"); one(c, s, r, c.chance(1, 3) ? 3000000 : 150000); }
// one component around a power of two, every build
PROPERTY(power_packet, 0) {
  AegisSession s(c, any_build(c, aegis_builds())), r(c, any_build(c, aegis_builds()), s.key); bool ad = c.chance(1, 2); size_t n = c.near_power(25), m = c.below(40); c.nontrivial(); c.cls(ad ? "associated data around a power of two" : "message around a power of two"); Bytes iv = c.keylike(16), a = c.content(ad ? n : m), p = c.content(ad ? m : n), ct, tag; c.say("%s ad=%zu n=%zu", s.b.name, a.size(), p.size());
  s.enc_check(iv, a, p, ct, tag); r.dec_check(iv, a, ct, tag, p);
}
// lengths whose bit count needs more than 32 bits
PROPERTY(huge_packet, 0) {
  const Build<AegisApi> &b = any_build(c, aegis_builds()); Bytes key = c.keylike(16), iv = c.keylike(16); bool big_ad = c.chance(1, 2); size_t n = ((size_t)1 << 29) + c.below(64); c.nontrivial(); c.say("%s %s of %zu bytes", b.name, big_ad ? "associated data" : "message", n); c.cls("more than 2^32 bits");
  uint8_t *in = (uint8_t *)calloc(n, 1), *out = (uint8_t *)malloc(n), *rout = (uint8_t *)malloc(n); if (!in || !out || !rout) _Exit(70);
  for (size_t i = 0; i < n; i += 4099) in[i] = (uint8_t)(i >> 12);
  Ctx s(b.api->state, 1); Buf k(key), v(iv), t(16); uint8_t rt[16], small[5] = {1, 2, 3, 4, 5}, o5[5], r5[5]; b.api->load_key(s, k);
  if (big_ad) { b.api->enc(s, o5, t, small, in, v, n, 5); ref::aegis128_encrypt_p(key.data(), iv.data(), in, n, small, 5, r5, rt); } else { b.api->enc(s, out, t, in, small, v, 5, n); ref::aegis128_encrypt_p(key.data(), iv.data(), small, 5, in, n, rout, rt); }
  bool ct_ok = big_ad ? !memcmp(o5, r5, 5) : !memcmp(out, rout, n), tag_ok = !memcmp(t.p(), rt, 16), dec_ok = true, back = true;
  if (ct_ok && tag_ok) { if (big_ad) { uint8_t p5[5]; dec_ok = b.api->dec(s, p5, o5, in, v, t, n, 5) != 0; back = !memcmp(p5, small, 5); } else { dec_ok = b.api->dec(s, rout, out, small, v, t, 5, n) != 0; back = !memcmp(rout, in, n); } }
  free(in); free(out); free(rout);
  CHECK(ct_ok, "%s: ciphertext of a packet of more than 2^29 bytes is wrong", b.name); CHECK(tag_ok, "%s: tag of a packet of more than 2^29 bytes is wrong", b.name); CHECK(dec_ok && back, "%s: packet of more than 2^29 bytes was not decrypted", b.name);
}
// the index of a word of the associated data needs more than 31 bits (untouched pages of the buffer cost no memory)
PROPERTY(enormous_ad, 0) {
  const Build<AegisApi> *b = nullptr; for (auto &x : aegis_builds()) if (!strcmp(x.name, "aegis_x86i")) b = &x; if (!b) b = &aegis_builds()[0]; Bytes key = c.keylike(16), iv = c.keylike(16); size_t n = ((size_t)1 << 33) + 16 * c.range(1, 4); c.nontrivial(); c.say("%s associated data of %zu bytes", b->name, n); c.cls("associated data of more than 8 GiB");
  uint8_t *ad = (uint8_t *)calloc(n, 1), pt[5] = {1, 2, 3, 4, 5}, ct[5], back[5]; if (!ad) _Exit(70); Ctx s(b->api->state, 1); Buf k(key), v(iv), t(16); b->api->load_key(s, k);
  b->api->enc(s, ct, t, pt, ad, v, n, 5); ad[n - 1] = 1; Buf t2(t.bytes()); int forged = b->api->dec(s, back, ct, ad, v, t2, n, 5); free(ad);
  CHECK(!forged, "%s: a change in the last block of %zu bytes of associated data was not noticed", b->name, n);
}
// messages whose byte length needs more than 32 bits, and associated data of that size: every build, against the model
static void enormous(Choices &c, bool big_ad) {
  Bytes key = c.keylike(16), iv = c.keylike(16); size_t n = ((size_t)1 << 32) + 1 + c.below(64); c.nontrivial(); c.say("%s of %zu bytes, every build", big_ad ? "associated data" : "message", n); c.cls(big_ad ? "associated data of more than 4 GiB" : "message of more than 4 GiB");
  auto &bs = aegis_builds(); Ring in(n), ct(n); in.fill(c.word(4)); uint8_t small[5] = {1, 2, 3, 4, 5}, o5[5], rt[16]; std::vector<std::string> bad(bs.size()); std::vector<std::unique_ptr<Ctx>> st; std::vector<std::unique_ptr<Ring>> out; for (auto &b : bs) { st.emplace_back(new Ctx(b.api->state, 1)); out.emplace_back(new Ring(n)); }
  std::vector<Bytes> tags(bs.size(), Bytes(16));
  in_threads(bs.size() + 1, [&](size_t i) {
    if (i == bs.size()) { if (big_ad) ref::aegis128_encrypt_p(key.data(), iv.data(), in.base, n, small, 5, o5, rt); else ref::aegis128_encrypt_p(key.data(), iv.data(), small, 5, in.base, n, ct.base, rt); return; }
    Bytes k = key, v = iv; uint8_t s5[5] = {1, 2, 3, 4, 5}; bs[i].api->load_key(*st[i], k.data());
    if (big_ad) bs[i].api->enc(*st[i], out[i]->base, tags[i].data(), s5, in.base, v.data(), n, 5); else bs[i].api->enc(*st[i], out[i]->base, tags[i].data(), in.base, s5, v.data(), 5, n);
  }, big_ad ? 3 : 64);                                  // a copy of the associated data is made when it ends in a partial block
  for (size_t i = 0; i < bs.size(); i++) {
    CHECK(!memcmp(tags[i].data(), rt, 16), "%s: tag of a packet with a %s of %zu bytes is wrong", bs[i].name, big_ad ? "associated data" : "message", n);
    CHECK(big_ad ? !memcmp(out[i]->base, o5, 5) : out[i]->same_end(ct), "%s: ciphertext of a packet with a %s of %zu bytes is wrong", bs[i].name, big_ad ? "associated data" : "message", n);
  }
}
PROPERTY(enormous_packet, 0) { enormous(c, true); enormous(c, false); }
// past 2^16 calls on one context
PROPERTY(many_calls, 0) { AegisSession s(c, any_build(c, aegis_builds())); many_calls(c, s, (int)c.range(66000, 72000)); }
