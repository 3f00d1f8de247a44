// AEGIS-128: only encrypted packets are accepted, and nothing leaks otherwise.
#include "sessions.h"
struct Pkt { Bytes iv, ad, ct, tag, pt; };
static Pkt make(Choices &c, AegisSession &s, size_t maxlen) { Pkt p; p.iv = c.keylike(16); p.ad = c.content(c.length(maxlen, 16)); p.pt = c.content(c.length(maxlen, 16)); s.enc(p.iv, p.ad, p.pt, p.ct, p.tag); return p; }
static void flip(Choices &c, Bytes &b) { if (b.size() > 16 && c.chance(1, 4)) { size_t n = b.size(); b[n - 1 - c.below(16)] ^= (uint8_t)(1u << c.below(8)); return; } if (c.chance(2, 3)) { size_t bit = c.below(b.size() * 8); b[bit / 8] ^= (uint8_t)(1u << (bit & 7)); } else b[c.below(b.size())] ^= (uint8_t)c.range(1, 255); }
// returns what was done, or null if nothing applicable
static const char *damage(Choices &c, Pkt &p, const Pkt &q) {
  switch (c.below(13)) {
    case 0: flip(c, p.tag); return "the tag was changed";
    case 12: structured_damage(c, p.tag); return "the tag was changed in several places";
    case 1: if (p.ct.empty()) return nullptr; flip(c, p.ct); return "the ciphertext was changed";
    case 2: if (p.ad.empty()) return nullptr; flip(c, p.ad); return "the associated data was changed";
    case 3: flip(c, p.iv); return "the IV was changed";
    case 4: if (p.ct.empty()) return nullptr; p.ct.resize(c.below(p.ct.size())); return "the ciphertext was truncated";
    case 5: { int n = (int)c.range(1, 33); for (int i = 0; i < n; i++) p.ct.push_back(c.chance(1, 2) ? 0 : c.byte()); return "the ciphertext was extended"; }
    case 6: if (p.ad.empty()) return nullptr; p.ad.resize(c.below(p.ad.size())); return "the associated data was truncated";
    case 7: { int n = (int)c.range(1, 33); for (int i = 0; i < n; i++) p.ad.push_back(c.chance(1, 2) ? 0 : c.byte()); return "the associated data was extended"; }
    case 8: if (p.ct == p.ad || (p.ct.empty() && p.ad.empty())) return nullptr; std::swap(p.ct, p.ad); return "ciphertext and associated data were exchanged";
    case 9: if (q.tag == p.tag) return nullptr; p.tag = q.tag; return "the tag of another packet was used";
    case 10: if (q.ct == p.ct) return nullptr; p.ct = q.ct; return "the ciphertext of another packet was used";
    default: if (q.ad == p.ad) return nullptr; p.ad = q.ad; return "the associated data of another packet was used";
  }
}
PROPERTY(tamper, 6) {
  AegisSession s(c, any_build(c, aegis_builds())), r(c, any_build(c, aegis_builds()), s.key); Pkt a = make(c, s, 400), b = make(c, s, 400); c.cls(r.b.name); c.say("ad=%zu n=%zu", a.ad.size(), a.ct.size());
  int n = (int)c.range(1, 8);
  for (int i = 0; i < n; i++) {
    if (c.chance(1, 6)) { r.dec_check(a.iv, a.ad, a.ct, a.tag, a.pt); c.cls("authentic packet between forgeries"); }
    Pkt p = a; const char *w = damage(c, p, b); if (!w) continue; if (c.chance(1, 8)) { Pkt o = p; if (damage(c, p, b) && p.iv == a.iv && p.ad == a.ad && p.ct == a.ct && p.tag == a.tag) p = o; }
    if (p.iv == a.iv && p.ad == a.ad && p.ct == a.ct && p.tag == a.tag) continue; if (p.iv == b.iv && p.ad == b.ad && p.ct == b.ct && p.tag == b.tag) continue;
    c.say("%s", w); c.cls(w); c.nontrivial(); r.reject_check(p.iv, p.ad, p.ct, p.tag, w);
  }
}
PROPERTY(wrong_key, 2) {
  AegisSession s(c, any_build(c, aegis_builds())); Pkt a = make(c, s, 200); Bytes k = s.key; if (c.chance(1, 2)) { size_t bit = c.below(128); k[bit / 8] ^= (uint8_t)(1u << (bit & 7)); } else { k = c.keylike(16); if (k == s.key) k[0] ^= 1; }
  AegisSession r(c, any_build(c, aegis_builds()), k); c.nontrivial(); c.cls("the key was changed"); r.reject_check(a.iv, a.ad, a.ct, a.tag, "the key differs");
}
// every single bit of one packet
PROPERTY(every_bit, 1) {
  AegisSession s(c, any_build(c, aegis_builds())), r(c, any_build(c, aegis_builds()), s.key); Pkt a; a.iv = c.keylike(16); a.ad = c.content(c.below(40)); a.pt = c.content(c.below(40)); s.enc(a.iv, a.ad, a.pt, a.ct, a.tag); c.nontrivial(); c.cls("every bit of a packet"); c.say("ad=%zu n=%zu all bits", a.ad.size(), a.ct.size());
  Bytes *parts[4] = {&a.tag, &a.ct, &a.iv, &a.ad}; const char *names[4] = {"a tag bit was flipped", "a ciphertext bit was flipped", "an IV bit was flipped", "an associated-data bit was flipped"};
  for (int f = 0; f < 4; f++) for (size_t bit = 0; bit < parts[f]->size() * 8; bit++) { (*parts[f])[bit / 8] ^= (uint8_t)(1u << (bit & 7)); r.reject_check(a.iv, a.ad, a.ct, a.tag, names[f]); (*parts[f])[bit / 8] ^= (uint8_t)(1u << (bit & 7)); }
  r.dec_check(a.iv, a.ad, a.ct, a.tag, a.pt);
}
// all truncations of one packet, each with the wrong tag the receiver must refuse
PROPERTY(every_cut, 1) {
  AegisSession s(c, any_build(c, aegis_builds())), r(c, any_build(c, aegis_builds()), s.key); Pkt a; a.iv = c.keylike(16); a.ad = c.content(c.below(70)); a.pt = c.content(1 + c.below(120)); s.enc(a.iv, a.ad, a.pt, a.ct, a.tag); c.nontrivial(); c.cls("every truncation of a packet"); c.say("ad=%zu n=%zu all cuts", a.ad.size(), a.ct.size());
  for (size_t n = 0; n < a.ct.size(); n++) r.reject_check(a.iv, a.ad, Bytes(a.ct.begin(), a.ct.begin() + (long)n), a.tag, "the ciphertext was truncated");
  for (size_t n = 0; n < a.ad.size(); n++) r.reject_check(a.iv, Bytes(a.ad.begin(), a.ad.begin() + (long)n), a.ct, a.tag, "the associated data was truncated");
  // moving bytes between associated data and message
  Bytes all(a.ad); all.insert(all.end(), a.ct.begin(), a.ct.end());
  for (size_t n = 0; n <= all.size(); n++) if (n != a.ad.size()) r.reject_check(a.iv, Bytes(all.begin(), all.begin() + (long)n), Bytes(all.begin() + (long)n, all.end()), a.tag, "bytes were moved between associated data and message");
}
PROPERTY(long_packet, 0) { AegisSession s(c, any_build(c, aegis_builds())), r(c, any_build(c, aegis_builds()), s.key); Pkt a = make(c, s, c.chance(1, 4) ? 1500000 : 70000), b = make(c, s, 50); if (c.chance(1, 3)) { size_t n = c.near_power(24); (c.chance(1, 2) ? a.ad : a.pt) = c.content(n); s.enc(a.iv, a.ad, a.pt, a.ct, a.tag); c.cls("a length around a power of two"); } for (int i = 0; i < 4; i++) { Pkt p = a; const char *w = damage(c, p, b); if (!w) continue; c.cls(w); c.nontrivial(); c.say("ad=%zu n=%zu %s", a.ad.size(), a.ct.size(), w); r.reject_check(p.iv, p.ad, p.ct, p.tag, w); } r.dec_check(a.iv, a.ad, a.ct, a.tag, a.pt); }
// a packet of more than 4 GiB (any ciphertext has a tag, which the model finds): accepted with that tag, otherwise cleared to its end
PROPERTY(enormous_packet, 0) {
  Bytes key = c.keylike(16), iv = c.keylike(16), ad = c.content(c.below(20)); size_t n = ((size_t)1 << 32) + 1 + c.below(64); unsigned bit = (unsigned)c.below(128); c.nontrivial(); c.say("ciphertext of %zu bytes, every build", n); c.cls("more than 4 GiB");
  auto &bs = aegis_builds(); Ring ct(n), pt(n); ct.fill(c.word(4)); uint8_t rt[16]; ref::aegis128_decrypt_p(key.data(), iv.data(), ad.data(), ad.size(), ct.base, n, pt.base, rt); uint64_t junk = c.word(4);
  std::vector<std::string> bad(bs.size()); std::vector<std::unique_ptr<Ctx>> st; std::vector<std::unique_ptr<Ring>> out; for (size_t i = 0; i < bs.size(); i++) for (int k = 0; k < 2; k++) { st.emplace_back(new Ctx(bs[i].api->state, 1)); out.emplace_back(new Ring(n)); out.back()->fill(junk); }
  std::vector<int> flag(2 * bs.size(), 0);
  in_threads(2 * bs.size(), [&](size_t j) { auto *a = bs[j / 2].api; Bytes k = key, v = iv, t(rt, rt + 16), d = ad; d.resize(d.size() + 1); if (j & 1) t[bit / 8] ^= (uint8_t)(1u << (bit & 7)); a->load_key(*st[j], k.data()); flag[j] = a->dec(*st[j], out[j]->base, ct.base, d.data(), v.data(), t.data(), ad.size(), n) ? 1 : 0; });
  for (size_t j = 0; j < flag.size(); j++) {
    const char *name = bs[j / 2].name; if (!(j & 1)) { CHECK(flag[j], "%s: an authentic packet of %zu bytes was rejected", name, n); CHECK(out[j]->same_end(pt), "%s: the plaintext of a packet of %zu bytes is wrong", name, n); continue; }
    CHECK(!flag[j], "%s: a packet of %zu bytes with a changed tag was accepted", name, n); size_t left = 0; for (size_t i = 0; i < Ring::W; i++) left += out[j]->base[i] != 0; 
    CHECK(!left, "%s: %zu bytes at the end of the plaintext of a rejected packet of %zu bytes were not cleared", name, left, n);
  }
}
// tens of thousands of forgeries do not change the judgement
PROPERTY(many_calls, 0) {
  AegisSession s(c, any_build(c, aegis_builds())), r(c, any_build(c, aegis_builds()), s.key); Pkt a = make(c, s, 40), b = make(c, s, 60); int n = (int)c.range(66000, 72000), each = (int)c.range(1, 3); bool tags = c.chance(1, 2); uint64_t seed = c.word(5); c.cls(r.b.name); c.cls(tags ? "many wrong tags" : "many forgeries"); c.nontrivial(); c.say("%s: %d forgeries", r.b.name, n);
  for (int i = 0; i < n;) { Bytes e(8192); pbt::expand(seed++, e.data(), e.size()); Choices x(e.data(), e.size());
    for (; i < n && x.used() + 400 < e.size(); i++) {
      Pkt p = a; if (tags) { flip(x, p.tag); r.reject_check(p.iv, p.ad, p.ct, p.tag, "the tag was changed"); } else { const char *w = damage(x, p, b); if (w && !(p.iv == a.iv && p.ad == a.ad && p.ct == a.ct && p.tag == a.tag) && !(p.iv == b.iv && p.ad == b.ad && p.ct == b.ct && p.tag == b.tag)) r.reject_check(p.iv, p.ad, p.ct, p.tag, w); }
      if (each > 1 && x.chance(1, 400)) { const Pkt &q = x.chance(1, 2) ? b : a; r.dec_check(q.iv, q.ad, q.ct, q.tag, q.pt); }
    } }
  r.dec_check(a.iv, a.ad, a.ct, a.tag, a.pt); r.dec_check(b.iv, b.ad, b.ct, b.tag, b.pt);
}
