// Every build of AES-CTR, AES-CFB and AEGIS-128 is driven with the same calls
// and must answer identically; a receiver may use another build for each packet
// of another session.  No model is involved.
#include "sessions.h"

struct Outs { std::string what; Bytes b; };
template <class B> void same(const char *op, const std::vector<B> &bs, const std::vector<Bytes> &o) {
  for (size_t i = 1; i < o.size(); i++) if (o[i] != o[0]) { size_t k = 0; while (k < o[0].size() && o[0][k] == o[i][k]) k++; pbt::fail("%s: %s and %s differ at byte %zu of %zu (%s / %s)", op, bs[0].name, bs[i].name, k, o[0].size(), pbt::hex(&o[0][k], std::min<size_t>(8, o[0].size() - k)).c_str(), pbt::hex(&o[i][k], std::min<size_t>(8, o[0].size() - k)).c_str()); }
}
static void ctr(Choices &c, int n, size_t maxlen) {
  auto &bs = ctr_builds(); std::vector<std::unique_ptr<Ctx>> cs; for (auto &b : bs) cs.emplace_back(new Ctx(b.api->state, c.word(2)));
  Bytes key = c.keylike(16), nonce = c.keylike(12); int packets = 0;
  auto lk = [&] { for (size_t i = 0; i < bs.size(); i++) { Buf k(key); bs[i].api->load_key(*cs[i], k); } }; auto lv = [&] { for (size_t i = 0; i < bs.size(); i++) { Buf v(nonce); bs[i].api->load_iv(*cs[i], v); } };
  lk(); lv(); c.say("CTR x%zu", bs.size());
  for (int s = 0; s < n; s++) switch (c.pick({12, 1, 1})) {
    case 0: { Bytes in = c.content(c.length(maxlen, 16)); c.say("packet %zu", in.size()); packets++; std::vector<Bytes> o; for (size_t i = 0; i < bs.size(); i++) { Buf ib(in), ob(in.size(), (uint8_t)i); bs[i].api->packet(*cs[i], ob, ib, (int)in.size()); ob.check(bs[i].name); o.push_back(ob.bytes()); } char t[60]; snprintf(t, sizeof t, "AES-CTR packet %d (%zu bytes)", s + 1, in.size()); same(t, bs, o); c.digest(o[0].data(), o[0].size()); break; }
    case 1: nonce = c.keylike(12); c.cls("nonce reload"); lv(); break;
    case 2: key = c.keylike(16); c.cls("key reload"); lk(); break;
  }
  c.nontrivial(packets > 0 && bs.size() > 1); c.cls("AES-CTR");
}
static void cfb(Choices &c, int n, size_t maxlen) {
  auto &bs = cfb_builds(); std::vector<std::unique_ptr<Ctx>> cs; for (auto &b : bs) cs.emplace_back(new Ctx(b.api->state, c.word(2)));
  Bytes key = c.keylike(16), iv = c.keylike(16); int packets = 0; auto init = [&] { for (size_t i = 0; i < bs.size(); i++) { Buf k(key), v(iv); bs[i].api->init(*cs[i], k, v); } };
  init(); c.say("CFB x%zu", bs.size());
  for (int s = 0; s < n; s++) {
    if (c.chance(1, 14)) { if (c.chance(1, 2)) key = c.keylike(16); iv = c.keylike(16); c.cls("re-initialise"); init(); continue; }
    bool dec = c.chance(1, 2); Bytes in = c.content(c.length(maxlen, 16)); c.say("%s %zu", dec ? "dec" : "enc", in.size()); packets++; std::vector<Bytes> o;
    for (size_t i = 0; i < bs.size(); i++) { Buf ib(in), ob(in.size(), (uint8_t)i); bs[i].api->packet(*cs[i], ob, ib, (int)in.size(), dec ? 1 : 0); ob.check(bs[i].name); o.push_back(ob.bytes()); }
    char t[70]; snprintf(t, sizeof t, "AES-CFB packet %d (%s, %zu bytes)", s + 1, dec ? "decrypt" : "encrypt", in.size()); same(t, bs, o); c.digest(o[0].data(), o[0].size());
  }
  c.nontrivial(packets > 0 && bs.size() > 1); c.cls("AES-CFB");
}
static void aegis(Choices &c, int n, size_t maxlen) {
  auto &bs = aegis_builds(); std::vector<std::unique_ptr<AegisSession>> ss; Bytes key = c.keylike(16); for (auto &b : bs) ss.emplace_back(new AegisSession(c, b, key)); int packets = 0;
  for (int s = 0; s < n; s++) {
    if (c.chance(1, 12)) { key = c.keylike(16); c.cls("key reload"); for (auto &x : ss) { x->key = key; x->load(c); } continue; }
    Bytes iv = c.keylike(16), ad = c.content(c.length(maxlen, 16)), pt = c.content(c.length(maxlen, 16)); c.say("AEGIS ad=%zu n=%zu", ad.size(), pt.size()); packets++;
    std::vector<Bytes> o, d; for (auto &x : ss) { Bytes ct, tag; x->enc(iv, ad, pt, ct, tag); ct.insert(ct.end(), tag.begin(), tag.end()); o.push_back(ct); }
    char t[80]; snprintf(t, sizeof t, "AEGIS-128 packet %d (ad %zu, message %zu, tag last)", s + 1, ad.size(), pt.size()); same(t, bs, o); c.digest(o[0].data(), o[0].size());
    Bytes ct(o[0].begin(), o[0].end() - 16), tag(o[0].end() - 16, o[0].end()); int ev = c.chance(1, 3) ? (int)c.range(1, 3) : 0;
    if (ev == 1) tag[c.below(16)] ^= (uint8_t)c.range(1, 255); if (ev == 2 && !ct.empty()) ct[c.below(ct.size())] ^= (uint8_t)c.range(1, 255); if (ev == 3 && !ad.empty()) ad[c.below(ad.size())] ^= (uint8_t)c.range(1, 255); if (ev) c.cls("damaged packet");
    for (auto &x : ss) { Bytes p; bool ok = x->dec(iv, ad, ct, tag, p); p.push_back(ok ? 1 : 0); d.push_back(p); }
    snprintf(t, sizeof t, "AEGIS-128 decryption %d (ad %zu, message %zu, verdict last)", s + 1, ad.size(), ct.size()); same(t, bs, d);
  }
  c.nontrivial(packets > 0 && bs.size() > 1); c.cls("AEGIS-128");
}
PROPERTY(same_ctr, 4) { ctr(c, (int)c.range(1, 12), c.chance(1, 6) ? 3000 : 200); }
PROPERTY(same_cfb, 4) { cfb(c, (int)c.range(1, 12), c.chance(1, 6) ? 3000 : 200); }
PROPERTY(same_aegis, 4) { aegis(c, (int)c.range(1, 6), c.chance(1, 6) ? 2000 : 200); }
// sender and receiver of different builds, the receiver handing its session on is impossible, so each session pairs two builds
PROPERTY(mixed, 3) {
  switch (c.below(3)) {
    case 0: { auto &bs = ctr_builds(); const Build<AesCtrApi> &a = any_build(c, bs), &b = any_build(c, bs); c.nontrivial(a.api != b.api); c.say("%s -> %s", a.name, b.name); Bytes key = c.keylike(16), nonce = c.keylike(12); Ctx x(a.api->state, c.word(2)), y(b.api->state, c.word(2)); Buf k(key), v(nonce); a.api->load_key(x, k); a.api->load_iv(x, v); b.api->load_iv(y, v); b.api->load_key(y, k);
      int n = (int)c.range(1, 12); for (int i = 0; i < n; i++) { Bytes in = c.content(c.length(300, 16)); Buf ib(in), m(in.size()), o(in.size(), 3); a.api->packet(x, m, ib, (int)in.size()); b.api->packet(y, o, m, (int)in.size()); o.check(b.name); char t[90]; snprintf(t, sizeof t, "AES-CTR packet %d (%zu bytes) from %s read by %s", i + 1, in.size(), a.name, b.name); pbt::eq_bytes(t, o.bytes(), in); } break; }
    case 1: { auto &bs = cfb_builds(); const Build<AesCfbApi> &a = any_build(c, bs), &b = any_build(c, bs); c.nontrivial(a.api != b.api); c.say("%s -> %s", a.name, b.name); Bytes key = c.keylike(16), iv = c.keylike(16); Ctx x(a.api->state, c.word(2)), y(b.api->state, c.word(2)); Buf k(key), v(iv); a.api->init(x, k, v); b.api->init(y, k, v);
      int n = (int)c.range(1, 12); for (int i = 0; i < n; i++) { Bytes in = c.content(c.length(300, 16)); Buf ib(in), m(in.size()), o(in.size(), 3); a.api->packet(x, m, ib, (int)in.size(), 0); b.api->packet(y, o, m, (int)in.size(), 1); o.check(b.name); char t[90]; snprintf(t, sizeof t, "AES-CFB packet %d (%zu bytes) from %s read by %s", i + 1, in.size(), a.name, b.name); pbt::eq_bytes(t, o.bytes(), in); } break; }
    default: { auto &bs = aegis_builds(); const Build<AegisApi> &a = any_build(c, bs), &b = any_build(c, bs); c.nontrivial(a.api != b.api); Bytes key = c.keylike(16); AegisSession x(c, a, key), y(c, b, key);
      int n = (int)c.range(1, 6); for (int i = 0; i < n; i++) { Bytes iv = c.keylike(16), ad = c.content(c.length(200, 16)), pt = c.content(c.length(200, 16)), ct, tag; x.enc(iv, ad, pt, ct, tag); y.dec_check(iv, ad, ct, tag, pt); } break; }
  }
  c.cls("sender and receiver of two builds");
}
PROPERTY(long_history, 0) { switch (c.below(3)) { case 0: ctr(c, 120, 4000); break; case 1: cfb(c, 120, 4000); break; default: aegis(c, 40, 4000); } }
