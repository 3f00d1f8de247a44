// Stateful models.  A Session owns one library context and the reference
// state that predicts it; step() performs one generated operation on both and
// compares every byte the library produced.  Buffers are exact-size heap
// blocks; contexts and outputs start as generated garbage.
#pragma once
#include <algorithm>
#include "mods.h"
#include "pbt.h"
#include "ref.h"
#include <memory>
#include <sys/mman.h>
#include <thread>
#include <unistd.h>

// a wrong tag whose differences might cancel in a sloppy comparison (sums, XORs, words, prefixes, signed bytes)
inline void structured_damage(Choices &c, Bytes &t) {
  Bytes o = t; size_t n = t.size(), i = c.below(n), j = c.below(n); uint8_t d = (uint8_t)c.range(1, 255);
  switch (c.below(12)) {
    case 0: t[i] ^= d; t[j] ^= d; break;
    case 1: t[i] = (uint8_t)(t[i] + d); t[j] = (uint8_t)(t[j] - d); break;
    case 2: std::swap(t[i], t[j]); break;
    case 3: std::reverse(t.begin(), t.end()); break;
    case 4: for (auto &x : t) x = (uint8_t)~x; break;
    case 5: t[n - 1] ^= d; break;
    case 6: std::rotate(t.begin(), t.begin() + (long)i, t.end()); break;
    case 7: for (size_t k = i % 4; k < n; k += 4) t[k] ^= d; break;
    case 8: std::fill(t.begin(), t.end(), (uint8_t)0); break;
    case 9: { uint64_t m = c.word(4); for (size_t k = 0; k < n; k++) if (m >> (k % 32) & 1) t[k] ^= 0x80; break; }
    case 10: for (size_t k = 4; k < n; k++) t[k] = c.byte(); break;
    default: for (size_t k = 0; k + 8 <= n; k += 8) t[k + i % 8] ^= d; break;
  }
  if (t == o) t[i] ^= d;
}
// A buffer of any size that shows one window of memory again and again, so that
// a message of gigabytes costs 16 MB; after a sequential write the window holds
// the end of what was written.
struct Ring {
  static constexpr size_t W = (size_t)1 << 24; uint8_t *base = nullptr; size_t n, total;
  explicit Ring(size_t n_) : n(n_), total((n_ + W - 1) / W * W) {
    int fd = memfd_create("ring", 0); if (fd < 0 || ftruncate(fd, (off_t)W)) _Exit(70);
    base = (uint8_t *)mmap(nullptr, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (base == MAP_FAILED) _Exit(70);
    for (size_t o = 0; o < total; o += W) if (mmap(base + o, W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) _Exit(70);
    close(fd);
  }
  ~Ring() { munmap(base, total); }
  Ring(const Ring &) = delete;
  void fill(uint64_t seed) { pbt::expand(seed, base, W); }
  bool same_end(const Ring &o) const { return !memcmp(base, o.base, std::min(W, n)); }
};
template <class F> void in_threads(size_t k, F f, size_t at_once = 64) { for (size_t s = 0; s < k; s += at_once) { std::vector<std::thread> v; for (size_t i = s; i < k && i < s + at_once; i++) v.emplace_back([&f, i] { f(i); }); for (auto &x : v) x.join(); } }
struct Mem {                                         // how buffers look before the library sees them
  uint8_t fill = 0xA5; uint64_t paint = 0; size_t off = 0;
  static Mem gen(Choices &c) { Mem m; m.fill = c.byte(); m.paint = c.word(2) * 0x9e3779b97f4a7c15ull; return m; }
};
// The stack below the call is filled with a generated pattern first.
#define LIB(m, ...) do { if ((m).paint) pbt::paint_stack((m).paint); __VA_ARGS__; } while (0)

struct Ctx {                                         // a library context: heap block of exactly sizeof(state)
  std::unique_ptr<Guarded> g; 
  StateInfo info; size_t at = 0;
  // anywhere its type allows
  static size_t off(const StateInfo &i, uint64_t r) { return i.align >= 16 ? 0 : r % (16 / i.align) * i.align; }
  Ctx(StateInfo s, uint64_t garbage) : info(s) { size_t n = s.n; at = off(s, garbage >> 2); g.reset(new Guarded(n, 0xA5, at, s.align)); pbt::expand(garbage, g->p(), n); if ((garbage & 3) == 0) memset(g->p(), (int)(garbage >> 8), n); }
  Ctx(const Ctx &o) : info(o.info) { at = off(info, 1 + o.at / info.align); g.reset(new Guarded(o.g->n(), 0xA5, at, info.align)); memcpy(g->p(), o.g->p(), o.g->n()); }
  operator void *() { return g->p(); }
  void check(const char *w) { g->check(w); }
};
struct Buf : Guarded { using Guarded::Guarded; operator uint8_t *() { return p(); } };

// How often a session loads keys and IVs anew: as the generator likes, never, or every other step
enum Mood { ANY, STAY, RELOAD };
struct Session {
  Mood mood = ANY;
  bool again(Choices &c, unsigned den) { return mood == STAY ? false : mood == RELOAD ? c.chance(1, 2) : c.chance(1, den); }
  std::vector<unsigned> odds(std::vector<unsigned> w, size_t first_reload) { if (mood != ANY) for (size_t i = first_reload; i < w.size(); i++) w[i] = mood == STAY ? 0 : w[0]; return w; }
  virtual ~Session() {}
  virtual void step(Choices &c, size_t maxlen) = 0;
  virtual Session *clone() const = 0;                // byte copy of the context, copy of the model
  virtual const char *name() const = 0;
  int packets = 0;
};
// Tens of thousands of small calls on one context: past every small counter of calls, packets, keys or rejections
inline void many_calls(Choices &c, Session &s, int calls, size_t maxlen = 40) {
  s.mood = c.chance(2, 3) ? STAY : c.chance(1, 2) ? RELOAD : ANY; c.cls(s.mood == STAY ? "many calls, one key" : s.mood == RELOAD ? "many reloads" : "many calls"); c.cls(s.name()); c.nontrivial(); uint64_t seed = c.word(5); c.say("%s: %d calls", s.name(), calls);
  for (int i = 0; i < calls;) { Bytes b(8192); pbt::expand(seed++, b.data(), b.size()); Choices x(b.data(), b.size()); for (; i < calls && x.used() + 400 < b.size(); i++) s.step(x, maxlen); c.digest(&x.out_digest, 8); }
}
static inline Bytes xored(const Bytes &a, const Bytes &b) { Bytes r(a); for (size_t i = 0; i < r.size(); i++) r[i] ^= b[i]; return r; }

// ------------------------------------------------------------------ AES-CTR
struct CtrSession : Session {
  Build<AesCtrApi> b; Ctx cs; Bytes key, nonce; uint32_t ctr = 1; ref::Aes ak; Mem m;
  CtrSession(Choices &c, Build<AesCtrApi> b_) : b(b_), cs(b_.api->state, c.word(3)) {
    m = Mem::gen(c); key = c.keylike(16); nonce = c.keylike(12);
    c.say("%s: key=%s nonce=%s", b.name, pbt::hex(key).c_str(), pbt::hex(nonce).c_str());
    if (c.chance(1, 2)) { load_iv(); load_key(); } else { load_key(); load_iv(); }
  }
  CtrSession(Choices &c, Build<AesCtrApi> b_, const Bytes &k, const Bytes &n) : b(b_), cs(b_.api->state, c.word(3)) { m = Mem::gen(c); key = k; nonce = n; load_key(); load_iv(); }
  void load_key() { Buf k(key); LIB(m, b.api->load_key(cs, k)); k.check("load_key"); cs.check("load_key: context"); ref::aes_key(ak, key.data()); }
  void load_iv() { Buf n(nonce); LIB(m, b.api->load_iv(cs, n)); n.check("load_iv"); cs.check("load_iv: context"); ctr = 1; }
  Bytes expect(const Bytes &in) {
    Bytes o(in); uint8_t blk[16], ks[16];
    for (size_t i = 0; i < in.size(); i += 16) {
      memcpy(blk, nonce.data(), 12); blk[12] = (uint8_t)(ctr >> 24); blk[13] = (uint8_t)(ctr >> 16); blk[14] = (uint8_t)(ctr >> 8); blk[15] = (uint8_t)ctr; ctr++;
      ref::aes_enc(ak, blk, ks, strstr(b.name, "_r6") ? 5 : 1); for (size_t j = i; j < in.size() && j < i + 16; j++) o[j] ^= ks[j - i];
    }
    return o;
  }
  Bytes packet(const Bytes &in) {
    Buf ib(in), ob(in.size(), m.fill);
    uint32_t at = ctr;
    LIB(m, b.api->packet(cs, ob, ib, (int)in.size()));
    ib.check("AES-CTR input"); ob.check("AES-CTR output"); cs.check("AES-CTR context");
    char w[120]; snprintf(w, sizeof w, "%s packet %d (%zu bytes, from block %u)", b.name, packets + 1, in.size(), at);
    pbt::eq_bytes(w, ob.bytes(), expect(in)); packets++;
    return ob.bytes();
  }
  void skip(size_t n) { Bytes z(n), o(n); b.api->packet(cs, o.data(), z.data(), (int)n); ctr += (uint32_t)((n + 15) / 16); packets++; }      // not compared
  void step(Choices &c, size_t maxlen) override {
    switch (c.pick(odds({10, 1, 1}, 1))) {
      case 0: { Bytes in = c.content(c.length(maxlen, 16)); c.say("packet %zu", in.size()); if (in.size() % 16) c.cls("partial block"); Bytes o = packet(in); c.digest(o.data(), o.size()); break; }
      case 1: nonce = c.chance(1, 3) ? nonce : c.keylike(12); c.say("nonce=%s", pbt::hex(nonce).c_str()); c.cls("nonce reload"); load_iv(); break;
      case 2: key = c.chance(1, 4) ? key : c.keylike(16); c.say("key=%s", pbt::hex(key).c_str()); c.cls("key reload"); load_key(); break;
    }
  }
  Session *clone() const override { return new CtrSession(*this); }
  const char *name() const override { return b.name; }
};
// ------------------------------------------------------------------ AES-CFB
struct CfbSession : Session {
  Build<AesCfbApi> b; int first; Ctx cs; Bytes key, reg; ref::Aes ak; Mem m;
  CfbSession(Choices &c, Build<AesCfbApi> b_, int first_inner = 1) : b(b_), first(first_inner), cs(b_.api->state, c.word(3)) {
    m = Mem::gen(c); key = c.keylike(16); reg = c.keylike(16); init(c);
  }
  CfbSession(Choices &c, Build<AesCfbApi> b_, const Bytes &k, const Bytes &iv, int first_inner = 1) : b(b_), first(first_inner), cs(b_.api->state, c.word(3)) {
    m = Mem::gen(c); key = k; reg = iv; init(c);
  }
  void init(Choices &c) {
    c.say("%s: key=%s iv=%s", b.name, pbt::hex(key).c_str(), pbt::hex(reg).c_str());
    Buf k(key), v(reg); LIB(m, b.api->init(cs, k, v)); k.check("initialize key"); v.check("initialize iv"); cs.check("initialize: context");
    ref::aes_key(ak, key.data());
  }
  Bytes model(const Bytes &in, bool dec) {
    Bytes out(in); uint8_t ks[16];
    Bytes hist = reg;
    for (size_t i = 0; i < in.size(); i += 16) {
      ref::aes_enc(ak, hist.data() + hist.size() - 16, ks, first);
      size_t n = in.size() - i < 16 ? in.size() - i : 16;
      for (size_t j = 0; j < n; j++) out[i + j] ^= ks[j];
      const uint8_t *ct = dec ? &in[i] : &out[i]; Bytes ctb(ct, ct + n);
      hist.insert(hist.end(), ctb.begin(), ctb.end()); if (hist.size() > 64) hist.erase(hist.begin(), hist.end() - 32);
    }
    reg.assign(hist.end() - 16, hist.end());
    return out;
  }
  Bytes packet(const Bytes &in, bool dec) {
    Buf ib(in), ob(in.size(), m.fill);
    LIB(m, b.api->packet(cs, ob, ib, (int)in.size(), dec ? 1 : 0));
    ib.check("AES-CFB input"); ob.check("AES-CFB output"); cs.check("AES-CFB context");
    char w[120]; snprintf(w, sizeof w, "%s packet %d (%s, %zu bytes)", b.name, packets + 1, dec ? "decrypt" : "encrypt", in.size());
    pbt::eq_bytes(w, ob.bytes(), model(in, dec)); packets++;
    return ob.bytes();
  }
  void step(Choices &c, size_t maxlen) override {
    if (again(c, 14)) { key = c.chance(1, 3) ? key : c.keylike(16); reg = c.keylike(16); c.cls("re-initialise"); init(c); return; }
    bool dec = c.chance(1, 2); Bytes in = c.content(c.length(maxlen, 16)); c.say("%s %zu", dec ? "dec" : "enc", in.size()); if (in.size() % 16) c.cls("partial block");
    Bytes o = packet(in, dec); c.digest(o.data(), o.size());
  }
  Session *clone() const override { return new CfbSession(*this); }
  const char *name() const override { return b.name; }
};
// ------------------------------------------------------------------ AEGIS-128
struct AegisSession : Session {
  Build<AegisApi> b; Ctx cs; Bytes key; Mem m;
  AegisSession(Choices &c, Build<AegisApi> b_) : b(b_), cs(b_.api->state, c.word(3)) { m = Mem::gen(c); key = c.keylike(16); load(c); }
  AegisSession(Choices &c, Build<AegisApi> b_, const Bytes &k) : b(b_), cs(b_.api->state, c.word(3)) { m = Mem::gen(c); key = k; load(c); }
  void load(Choices &c) { c.say("%s: key=%s", b.name, pbt::hex(key).c_str()); Buf k(key); LIB(m, b.api->load_key(cs, k)); k.check("aegis_load_key"); cs.check("aegis_load_key: context"); }
  void enc(const Bytes &iv, const Bytes &ad, const Bytes &pt, Bytes &ct, Bytes &tag) {
    Buf v(iv), a(ad), p(pt), o(pt.size(), m.fill), t(16, m.fill);
    LIB(m, b.api->enc(cs, o, t, p, a, v, ad.size(), pt.size()));
    v.check("AEGIS iv"); a.check("AEGIS ad"); p.check("AEGIS plaintext"); o.check("AEGIS ciphertext"); t.check("AEGIS tag"); cs.check("AEGIS context");
    ct = o.bytes(); tag = t.bytes(); packets++;
  }
  bool dec(const Bytes &iv, const Bytes &ad, const Bytes &ct, const Bytes &tag, Bytes &pt) {
    Buf v(iv), a(ad), p(ct), o(ct.size(), m.fill), t(16, 0); memcpy(t.p(), tag.data(), 16);     // the tag buffer may be wiped
    int r = 0;
    LIB(m, r = b.api->dec(cs, o, p, a, v, t, ad.size(), ct.size()));
    v.check("AEGIS iv"); a.check("AEGIS ad"); p.check("AEGIS ciphertext"); o.check("AEGIS plaintext"); t.check("AEGIS tag"); cs.check("AEGIS context");
    pt = o.bytes(); packets++;
    return r != 0;
  }
  void enc_check(const Bytes &iv, const Bytes &ad, const Bytes &pt, Bytes &ct, Bytes &tag) {
    Bytes rct; uint8_t rt[16]; ref::aegis128_encrypt(key.data(), iv.data(), ad, pt, rct, rt);
    enc(iv, ad, pt, ct, tag);
    char w[140]; snprintf(w, sizeof w, "%s packet %d ciphertext (ad %zu, message %zu)", b.name, packets, ad.size(), pt.size()); pbt::eq_bytes(w, ct, rct);
    snprintf(w, sizeof w, "%s packet %d tag (ad %zu, message %zu)", b.name, packets, ad.size(), pt.size()); pbt::eq_bytes(w, tag.data(), rt, 16);
  }
  void dec_check(const Bytes &iv, const Bytes &ad, const Bytes &ct, const Bytes &tag, const Bytes &pt) {
    Bytes got; CHECK(dec(iv, ad, ct, tag, got), "%s packet %d: authentic packet rejected (ad %zu, message %zu)", b.name, packets, ad.size(), ct.size());
    char w[140]; snprintf(w, sizeof w, "%s packet %d decrypted (ad %zu, message %zu)", b.name, packets, ad.size(), ct.size()); pbt::eq_bytes(w, got, pt);
  }
  void reject_check(const Bytes &iv, const Bytes &ad, const Bytes &ct, const Bytes &tag, const char *what) {
    // a guided fuzzer can read the right tag off the library's own comparison: such a packet is authentic
    Bytes rpt; uint8_t rt[16]; ref::aegis128_decrypt(key.data(), iv.data(), ad, ct, rpt, rt); if (!memcmp(rt, tag.data(), 16)) { dec_check(iv, ad, ct, tag, rpt); return; }
    Bytes got; CHECK(!dec(iv, ad, ct, tag, got), "%s packet %d: accepted although %s (ad %zu, message %zu)", b.name, packets, what, ad.size(), ct.size());
    for (size_t i = 0; i < got.size(); i++) CHECK(got[i] == 0, "%s packet %d: rejected (%s) but plaintext byte %zu of %zu is not wiped", b.name, packets, what, i, got.size());
  }
  void step(Choices &c, size_t maxlen) override {
    if (again(c, 14)) { key = c.keylike(16); c.cls("key reload"); load(c); return; }
    Bytes iv = c.keylike(16), ad = c.content(c.length(maxlen, 16)), pt = c.content(c.length(maxlen, 16)), ct, tag;
    if (pt.size() % 16) c.cls("partial block");
    switch (c.pick({3, 3, 1})) {
      case 0: c.say("enc ad=%zu n=%zu", ad.size(), pt.size()); enc_check(iv, ad, pt, ct, tag); c.digest(ct.data(), ct.size()); c.digest(tag.data(), 16); break;
      case 1: { c.say("dec ad=%zu n=%zu", ad.size(), pt.size()); Bytes rct; uint8_t t[16]; ref::aegis128_encrypt(key.data(), iv.data(), ad, pt, rct, t); dec_check(iv, ad, rct, Bytes(t, t + 16), pt); break; }
      case 2: { c.say("forged n=%zu", pt.size()); Bytes rct; uint8_t t[16]; ref::aegis128_encrypt(key.data(), iv.data(), ad, pt, rct, t); Bytes bad(t, t + 16); bad[c.below(16)] ^= (uint8_t)c.range(1, 255); reject_check(iv, ad, rct, bad, "the tag is wrong"); c.cls("forged"); break; }
    }
  }
  Session *clone() const override { return new AegisSession(*this); }
  const char *name() const override { return b.name; }
};
// ------------------------------------------------------------------ ChaCha
struct ChachaSession : Session {
  Build<ChachaApi> b; int rounds; Ctx cs; Bytes key, nonce; Mem m;
  static int rounds_of(const char *n) { return !strcmp(n, "chacha8") ? 8 : !strcmp(n, "chacha12") ? 12 : 20; }
  ChachaSession(Choices &c, Build<ChachaApi> b_) : b(b_), rounds(rounds_of(b_.name)), cs(b_.api->state, c.word(3)) { m = Mem::gen(c); init(c); }
  void init(Choices &c) { key = c.keylike(32); nonce = c.keylike(12); c.say("%s: key=%s nonce=%s", b.name, pbt::hex(key).c_str(), pbt::hex(nonce).c_str()); Buf k(key), n(nonce); LIB(m, b.api->init(cs, k, n)); k.check("chacha_initialize key"); n.check("chacha_initialize nonce"); cs.check("chacha_initialize: context"); }
  Bytes packet(const Bytes &in) {
    Buf ib(in), ob(in.size(), m.fill); LIB(m, b.api->packet(cs, ob, ib, in.size()));
    ib.check("ChaCha input"); ob.check("ChaCha output"); cs.check("ChaCha context"); packets++;
    char w[100]; snprintf(w, sizeof w, "%s packet %d (%zu bytes)", b.name, packets, in.size());
    pbt::eq_bytes(w, ob.bytes(), xored(in, ref::chacha_stream(key.data(), nonce.data(), 1, rounds, in.size())));
    return ob.bytes();
  }
  void block(uint32_t ctr) {
    Buf ks(64, m.fill); LIB(m, b.api->block(cs, ctr, (uint32_t *)ks.p())); ks.check("chacha_block"); cs.check("chacha_block: context");
    uint8_t want[64]; ref::chacha_block(key.data(), nonce.data(), ctr, rounds, want); uint8_t got[64];
    for (int i = 0; i < 16; i++) { uint32_t v; memcpy(&v, ks.p() + 4 * i, 4); got[4 * i] = (uint8_t)v; got[4 * i + 1] = (uint8_t)(v >> 8); got[4 * i + 2] = (uint8_t)(v >> 16); got[4 * i + 3] = (uint8_t)(v >> 24); }
    char w[100]; snprintf(w, sizeof w, "%s block %u (as words)", b.name, ctr); pbt::eq_bytes(w, got, want, 64);
  }
  static uint32_t counter(Choices &c) { switch (c.pick({2, 3, 2, 1})) { case 0: return (uint32_t)c.below(8); case 1: return (uint32_t)c.word(4); case 2: return 0xffffffffu - (uint32_t)c.below(4); default: return 1u << c.below(32); } }
  void step(Choices &c, size_t maxlen) override {
    switch (c.pick(odds({6, 4, 1}, 2))) {
      case 0: { Bytes in = c.content(c.length(maxlen, 64)); c.say("packet %zu", in.size()); if (in.size() % 64) c.cls("partial block"); Bytes o = packet(in); c.digest(o.data(), o.size()); break; }
      case 1: { uint32_t k = counter(c); c.say("block %u", k); c.cls("block call"); block(k); break; }
      case 2: c.cls("re-initialise"); init(c); break;
    }
  }
  Session *clone() const override { return new ChachaSession(*this); }
  const char *name() const override { return b.name; }
};
// ------------------------------------------------------------------ HC-128
struct Hc128Session : Session {
  Build<Hc128Api> b; Ctx cs; Bytes key, iv; ref::Hc128 r; Mem m;
  Hc128Session(Choices &c, Build<Hc128Api> b_) : b(b_), cs(b_.api->state, c.word(3)) { m = Mem::gen(c); key = c.keylike(16); iv = c.keylike(16); init(c); }
  Hc128Session(Choices &c, Build<Hc128Api> b_, const Bytes &k, const Bytes &v) : b(b_), cs(b_.api->state, c.word(3)) { m = Mem::gen(c); key = k; iv = v; init(c); }
  void init(Choices &c) { c.say("%s: key=%s iv=%s", b.name, pbt::hex(key).c_str(), pbt::hex(iv).c_str()); Buf k(key), v(iv); LIB(m, b.api->init(cs, k, v)); k.check("hc128_initialize key"); v.check("hc128_initialize iv"); cs.check("hc128_initialize: context"); ref::hc128_init(r, key.data(), iv.data()); }
  Bytes expect(const Bytes &in) { Bytes o(in); for (size_t i = 0; i < in.size(); i += 4) { uint32_t w = ref::hc128_word(r); for (size_t j = i; j < in.size() && j < i + 4; j++) o[j] ^= (uint8_t)(w >> (8 * (j - i))); } return o; }
  Bytes packet(const Bytes &in, bool inplace = false) {
    Buf ib(in), ob(in.size(), m.fill); if (inplace && in.size()) memcpy(ob.p(), in.data(), in.size());
    LIB(m, b.api->packet(cs, ob, inplace ? (uint8_t *)ob : (uint8_t *)ib, in.size()));
    ib.check("HC-128 input"); ob.check("HC-128 output"); cs.check("HC-128 context"); packets++;
    char w[100]; snprintf(w, sizeof w, "hc128 packet %d (%zu bytes%s)", packets, in.size(), inplace ? ", in place" : ""); pbt::eq_bytes(w, ob.bytes(), expect(in));
    return ob.bytes();
  }
  void step(Choices &c, size_t maxlen) override {
    if (again(c, 14)) { if (c.chance(1, 2)) key = c.keylike(16); if (c.chance(3, 4)) iv = c.keylike(16); c.cls("re-initialise"); init(c); return; }
    bool ip = c.chance(1, 4); Bytes in = c.content(c.length(maxlen, c.chance(1, 4) ? 2048 : 4)); c.say("%spacket %zu", ip ? "in-place " : "", in.size()); if (in.size() % 4) c.cls("partial word"); if (ip) c.cls("in place"); Bytes o = packet(in, ip); c.digest(o.data(), o.size());
  }
  Session *clone() const override { return new Hc128Session(*this); }
  const char *name() const override { return b.name; }
};
// ------------------------------------------------------------------ Rabbit
// Keys and IVs chosen so that a counter sum of the first system update lands
// exactly on 2^32 or next to it, or a squared operand on an edge: cases that
// uniform keys meet once in 2^32.
struct RabbitEdge {
  static uint32_t A(int j) { static const uint32_t a[3] = {0x4d34d34d, 0xd34d34d3, 0x34d34d34}; return a[j % 3]; }
  static uint32_t w(const uint16_t k[8], int hi, int lo) { return (uint32_t)k[hi & 7] << 16 | k[lo & 7]; }
  static void set(uint16_t k[8], int hi, int lo, uint32_t v) { k[hi & 7] = (uint16_t)(v >> 16); k[lo & 7] = (uint16_t)v; }
  static uint32_t target(Choices &c) { static const uint32_t t[] = {0, 0xffffffffu, 1, 0x80000000u, 0x10000}; return t[c.pick({5, 3, 3, 1, 1})]; }
  static Bytes key(Choices &c) {
    Bytes b = c.keylike(16); if (!c.chance(1, 4)) return b; c.cls("edge key"); uint16_t k[8]; memcpy(k, b.data(), 16); int n = (int)c.range(1, 4);
    for (int t = 0; t < n; t++) {
      int j = (int)c.below(8); bool x = c.chance(1, 4); uint32_t want = target(c);
      for (uint32_t cy = 0; cy < 2; cy++) {                       // whichever carry comes in
        uint16_t h[8]; memcpy(h, k, 16);
        if (!x) { uint32_t v = want - A(j) - cy; if (j & 1) set(h, j, j + 1, v); else set(h, j + 4, j + 5, v); }
        else { uint32_t C = (j & 1 ? w(h, j, j + 1) : w(h, j + 4, j + 5)) + A(j) + cy, v = want - C; if (j & 1) set(h, j + 5, j + 4, v); else set(h, j + 1, j, v); }
        uint64_t carry = 0; for (int i = 0; i < j; i++) carry = ((uint64_t)(i & 1 ? w(h, i, i + 1) : w(h, i + 4, i + 5)) + A(i) + carry) >> 32;
        if (carry == cy) { memcpy(k, h, 16); break; }
      }
    }
    memcpy(b.data(), k, 16); return b;
  }
  static Bytes iv(Choices &c, const ref::Rabbit &m) {
    Bytes b = c.keylike(8); if (!c.chance(1, 4)) return b; c.cls("edge IV"); uint16_t v[4]; memcpy(v, b.data(), 8); int n = (int)c.range(1, 2);
    static const int H[4] = {1, 3, 3, 2}, L[4] = {0, 1, 2, 0};
    for (int t = 0; t < n; t++) {
      int j = (int)c.below(8); bool x = c.chance(1, 4); uint32_t want = target(c);
      for (uint32_t cy = 0; cy < 2; cy++) {
        uint16_t h[4]; memcpy(h, v, 8); uint32_t C = want - A(j) - cy - (x ? m.X[j] : 0), d = C ^ m.C[j]; h[H[j & 3]] = (uint16_t)(d >> 16); h[L[j & 3]] = (uint16_t)d;
        uint64_t carry = m.b; for (int i = 0; i < j; i++) carry = ((uint64_t)(m.C[i] ^ ((uint32_t)h[H[i & 3]] << 16 | h[L[i & 3]])) + A(i) + carry) >> 32;
        if (carry == cy) { memcpy(v, h, 8); break; }
      }
    }
    memcpy(b.data(), v, 8); return b;
  }
};
struct RabbitSession : Session {
  Build<RabbitApi> b; Ctx cs; Bytes key, iv; ref::Rabbit master, r; Mem m; bool has_iv = false;
  RabbitSession(Choices &c, Build<RabbitApi> b_) : b(b_), cs(b_.api->state, c.word(3)) { m = Mem::gen(c); key = RabbitEdge::key(c); load_key(c); if (c.chance(2, 3)) { iv = RabbitEdge::iv(c, master); load_iv(c); } }
  RabbitSession(Choices &c, Build<RabbitApi> b_, const Bytes &k) : b(b_), cs(b_.api->state, c.word(3)) { m = Mem::gen(c); key = k; load_key(c); }
  void load_key(Choices &c) { c.say("rabbit: key=%s", pbt::hex(key).c_str()); Buf k(key); LIB(m, b.api->load_key(cs, k)); k.check("rabbit_load_key"); cs.check("rabbit_load_key: context"); Bytes rk(key.rbegin(), key.rend()); ref::rabbit_key(master, rk.data()); r = master; has_iv = false; }
  void load_iv(Choices &c) { c.say("iv=%s", pbt::hex(iv).c_str()); Buf v(iv); LIB(m, b.api->load_iv(cs, v)); v.check("rabbit_load_iv"); cs.check("rabbit_load_iv: context"); Bytes rv(iv.rbegin(), iv.rend()); r = master; ref::rabbit_iv(r, rv.data()); has_iv = true; }
  Bytes expect(const Bytes &in) { Bytes o(in); uint8_t ks[16]; for (size_t i = 0; i < in.size(); i += 16) { ref::rabbit_block(r, ks); for (size_t j = i; j < in.size() && j < i + 16; j++) o[j] ^= ks[15 - (j - i)]; } return o; }
  Bytes packet(const Bytes &in) {
    Buf ib(in), ob(in.size(), m.fill); LIB(m, b.api->packet(cs, ob, ib, in.size())); ib.check("Rabbit input"); ob.check("Rabbit output"); cs.check("Rabbit context"); packets++;
    char w[100]; snprintf(w, sizeof w, "rabbit packet %d (%zu bytes%s)", packets, in.size(), has_iv ? "" : ", no IV"); pbt::eq_bytes(w, ob.bytes(), expect(in)); return ob.bytes();
  }
  void step(Choices &c, size_t maxlen) override {
    switch (c.pick(odds({12, 2, 1}, 1))) {
      case 0: { Bytes in = c.content(c.length(maxlen, 16)); c.say("packet %zu", in.size()); if (in.size() % 16) c.cls("partial block"); Bytes o = packet(in); c.digest(o.data(), o.size()); break; }
      case 1: if (iv.empty() || c.chance(3, 4)) iv = RabbitEdge::iv(c, master); c.cls("IV reload"); load_iv(c); break;
      case 2: key = RabbitEdge::key(c); c.cls("key reload"); load_key(c); break;
    }
  }
  Session *clone() const override { return new RabbitSession(*this); }
  const char *name() const override { return b.name; }
};
// ------------------------------------------------------------------ Sosemanuk
struct SosemanukSession : Session {
  Build<SosemanukApi> b; Ctx cs; Bytes key, iv; ref::Sosemanuk r; Mem m; 
  SosemanukSession(Choices &c, Build<SosemanukApi> b_) : b(b_), cs(b_.api->state, c.word(3)) { m = Mem::gen(c); load_key(c); load_iv(c); }
  void load_key(Choices &c) { key = c.keylike(c.chance(1, 2) ? (size_t)c.range(1, 32) : c.chance(1, 2) ? 16 : 32); c.say("sosemanuk: key=%s", pbt::hex(key).c_str()); Buf k(key); LIB(m, b.api->load_key(cs, k, (int)key.size())); k.check("sosemanuk_load_key"); cs.check("sosemanuk_load_key: context"); }
  void load_iv(Choices &c) { iv = !iv.empty() && c.chance(1, 4) ? iv : c.keylike(16); c.say("iv=%s", pbt::hex(iv).c_str()); Buf v(iv); LIB(m, b.api->load_iv(cs, v)); v.check("sosemanuk_load_iv"); cs.check("sosemanuk_load_iv: context"); ref::sosemanuk_init(r, key.data(), key.size(), iv.data()); }
  Bytes expect(const Bytes &in) { Bytes o(in); uint8_t ks[16]; for (size_t i = 0; i <= in.size(); i += 16) { ref::sosemanuk_block(r, ks); for (size_t j = i; j < in.size() && j < i + 16; j++) o[j] ^= ks[j - i]; } return o; }
  Bytes packet(const Bytes &in) {
    Buf ib(in), ob(in.size(), m.fill); LIB(m, b.api->packet(cs, ob, ib, in.size())); ib.check("Sosemanuk input"); ob.check("Sosemanuk output"); cs.check("Sosemanuk context"); packets++;
    char w[100]; snprintf(w, sizeof w, "sosemanuk packet %d (%zu bytes, %zu-byte key)", packets, in.size(), key.size()); pbt::eq_bytes(w, ob.bytes(), expect(in)); return ob.bytes();
  }
  void step(Choices &c, size_t maxlen) override {
    switch (c.pick(odds({12, 2, 1}, 1))) {
      case 0: { Bytes in = c.content(c.length(maxlen, 16)); c.say("packet %zu", in.size()); if (in.size() % 16) c.cls("partial block"); Bytes o = packet(in); c.digest(o.data(), o.size()); break; }
      case 1: c.cls("IV reload"); load_iv(c); break;
      case 2: c.cls("key reload"); load_key(c); load_iv(c); break;          // a new key takes effect with the next IV
    }
  }
  Session *clone() const override { return new SosemanukSession(*this); }
  const char *name() const override { return b.name; }
};
// ------------------------------------------------------------------ Serpent subset
struct SerpentSession : Session {
  Build<SerpentApi> b; Ctx cs; Bytes key; uint32_t rk[100]; Mem m;
  SerpentSession(Choices &c, Build<SerpentApi> b_) : b(b_), cs(b_.api->state, c.word(3)) { m = Mem::gen(c); load(c); }
  void load(Choices &c) { key = c.keylike((size_t)c.range(1, 32)); if (c.chance(1, 2)) key.resize(32, 0); c.say("%s: key=%s", b.name, pbt::hex(key).c_str()); Buf k(key); LIB(m, b.api->key(cs, k, (int)key.size())); k.check("serpent_key_schedule"); cs.check("serpent_key_schedule: context"); ref::serpent_keys(key.data(), key.size(), rk); }
  void packet(const Bytes &in) {
    Buf ib(in), ob(48, m.fill); Bytes ctx = cs.g->bytes();
    LIB(m, b.api->packet(cs, (uint32_t *)ob.p(), (uint32_t *)ib.p(), 16)); ib.check("Serpent input"); ob.check("Serpent output"); cs.check("Serpent context");
    CHECK(cs.g->bytes() == ctx, "%s: processing a block changed the key context", b.name);
    uint32_t w[4], o[12]; for (int i = 0; i < 4; i++) w[i] = in[4 * i] | in[4 * i + 1] << 8 | in[4 * i + 2] << 16 | (uint32_t)in[4 * i + 3] << 24;
    ref::serpent24_rounds(rk, w, o, o + 4, o + 8); Bytes want(48); for (int i = 0; i < 12; i++) for (int k = 0; k < 4; k++) want[4 * i + k] = (uint8_t)(o[i] >> (8 * k));
    packets++; char t[100]; snprintf(t, sizeof t, "%s block (rounds 12/18/24 at bytes 0/16/32), %zu-byte key", b.name, key.size()); pbt::eq_bytes(t, ob.bytes(), want);
  }
  void step(Choices &c, size_t) override {
    if (again(c, 5)) { load(c); return; }
    Bytes in = c.keylike(16); c.say("block %s", pbt::hex(in).c_str()); packet(in);
  }
  Session *clone() const override { return new SerpentSession(*this); }
  const char *name() const override { return b.name; }
};
// ------------------------------------------------------------------ SHA-256
struct ShaSession : Session {
  Build<ShaApi> b; Mem m;
  ShaSession(Choices &c, Build<ShaApi> b_) : b(b_) { m = Mem::gen(c); }
  void hash(const Bytes &msg, size_t off = 0, size_t doff = 0) {
    Buf ib(msg, off), d(32, m.fill, doff); LIB(m, b.api->digest(d, ib, msg.size())); ib.check("SHA-256 message"); d.check("SHA-256 digest");
    uint8_t w[32]; ref::sha256(msg.data(), msg.size(), w); char t[80]; snprintf(t, sizeof t, "%s digest of %zu bytes", b.name, msg.size()); pbt::eq_bytes(t, d.p(), w, 32); packets++;
  }
  void step(Choices &c, size_t maxlen) override { Bytes msg = c.content(c.length(maxlen, 64)); size_t off = c.chance(1, 3) ? c.below(8) : 0, doff = c.chance(1, 3) ? c.below(8) : 0; c.say("%s %zu bytes (offset %zu)", b.name, msg.size(), off); hash(msg, off, doff); }
  Session *clone() const override { return new ShaSession(*this); }
  const char *name() const override { return b.name; }
};
// ------------------------------------------------------------------ HMAC
struct HmacSession : Session {
  Build<HmacApi> b; Ctx cs; Bytes key; Mem m;
  HmacSession(Choices &c, Build<HmacApi> b_) : b(b_), cs(b_.api->state, c.word(3)) { m = Mem::gen(c); key = gen_key(c); load(c); }
  HmacSession(Choices &c, Build<HmacApi> b_, const Bytes &k) : b(b_), cs(b_.api->state, c.word(3)) { m = Mem::gen(c); key = k; load(c); }
  static Bytes gen_key(Choices &c) { size_t n = c.length(200, 64); return n <= 48 && c.chance(1, 2) ? c.keylike(n) : c.content(n); }
  void load(Choices &c, size_t off = 0) { c.say("hmac: key=%s (%zu bytes)", pbt::hex(key, 16).c_str(), key.size()); Buf k(key, off); LIB(m, b.api->load_key(cs, k, (int)key.size())); k.check("hmac_load_key"); cs.check("hmac_load_key: context"); }
  Bytes gen(const Bytes &msg, int tl, size_t off = 0, size_t toff = 0) {
    Buf ib(msg, off), t((size_t)tl, m.fill, toff); LIB(m, b.api->gen(cs, t, ib, msg.size(), tl)); ib.check("HMAC message"); t.check("HMAC tag"); cs.check("HMAC context");
    uint8_t w[32]; ref::hmac_sha256(key.data(), key.size(), msg.data(), msg.size(), w); packets++;
    char s[120]; snprintf(s, sizeof s, "HMAC tag of %zu bytes (key %zu bytes, tag %d bytes)", msg.size(), key.size(), tl);
    if (msg.size()) pbt::eq_bytes(s, t.p(), w, (size_t)tl);
    return t.bytes();
  }
  bool val(const Bytes &tag, const Bytes &msg, size_t off = 0, size_t toff = 0) {
    Buf ib(msg, off), t(tag, toff); int r = 0; LIB(m, r = b.api->val(cs, t, ib, msg.size(), (int)tag.size())); ib.check("HMAC message"); t.check("HMAC tag (validation)"); cs.check("HMAC context"); packets++; return r != 0;
  }
  void val_check(const Bytes &tag, const Bytes &msg, size_t off = 0, size_t toff = 0) {
    uint8_t w[32]; ref::hmac_sha256(key.data(), key.size(), msg.data(), msg.size(), w); bool want = !msg.empty() && !memcmp(w, tag.data(), tag.size());
    bool got = val(tag, msg, off, toff); CHECK(got == want, "HMAC validation of a %s tag returned %d (message %zu bytes, tag %zu bytes, key %zu bytes)", want ? "correct" : "wrong", got, msg.size(), tag.size(), key.size());
  }
  void step(Choices &c, size_t maxlen) override {
    if (again(c, 8)) { key = gen_key(c); c.cls("key reload"); load(c, c.chance(1, 3) ? c.below(8) : 0); return; }
    Bytes msg = c.content(c.length(maxlen, 64)); int tl = c.chance(1, 2) ? 32 : (int)c.range(1, 32); size_t off = c.chance(1, 3) ? c.below(8) : 0;
    if (c.chance(1, 2)) { if (msg.empty()) msg.push_back(c.byte()); c.say("tag %zu -> %d", msg.size(), tl); Bytes t = gen(msg, tl, off, c.chance(1, 3) ? c.below(8) : 0); c.digest(t.data(), t.size()); }
    else {
      uint8_t w[32]; ref::hmac_sha256(key.data(), key.size(), msg.data(), msg.size(), w); Bytes t(w, w + tl); bool bad = c.chance(1, 2);
      if (bad) { c.cls("wrong tag"); t[c.below((uint64_t)tl)] ^= (uint8_t)c.range(1, 255); }
      c.say("validate %zu / %d %s", msg.size(), tl, bad ? "wrong" : "right"); val_check(t, msg, off);
    }
  }
  Session *clone() const override { return new HmacSession(*this); }
  const char *name() const override { return b.name; }
};
// ------------------------------------------------------------------ MD5
struct Md5Session : Session {
  Build<Md5Api> b; Ctx cs; Mem m; ref::Md5 r; bool open = false; uint64_t fed = 0;
  Md5Session(Choices &c, Build<Md5Api> b_) : b(b_), cs(b_.api->state, c.word(3)) { m = Mem::gen(c); }
  void init() { LIB(m, b.api->init(cs)); cs.check("MD5Init"); ref::md5_init(r); open = true; fed = 0; }
  void update(const Bytes &p, size_t off = 0) { Buf ib(p, off); LIB(m, b.api->update(cs, ib, (uint32_t)p.size())); ib.check("MD5Update input"); cs.check("MD5Update context"); ref::md5_update(r, p.data(), p.size()); fed += p.size(); }
  void final(const char *how, size_t off = 0) { Buf d(16, m.fill, off); LIB(m, b.api->final(d, cs)); d.check("MD5Final digest"); cs.check("MD5Final context"); uint8_t w[16]; ref::md5_final(r, w); char t[100]; snprintf(t, sizeof t, "MD5 of %llu bytes (%s)", (unsigned long long)fed, how); pbt::eq_bytes(t, d.p(), w, 16); open = false; packets++; }
  void oneshot(const Bytes &p, size_t off = 0) { Buf ib(p, off), d(16, m.fill); LIB(m, b.api->packet(cs, d, ib, (uint32_t)p.size())); ib.check("MD5 input"); d.check("MD5 digest"); cs.check("MD5 context"); uint8_t w[16]; ref::md5(p.data(), p.size(), w); char t[80]; snprintf(t, sizeof t, "MD5_process_packet of %zu bytes", p.size()); pbt::eq_bytes(t, d.p(), w, 16); open = false; packets++; }
  void step(Choices &c, size_t maxlen) override {
    size_t off = c.chance(1, 3) ? c.below(8) : 0;
    switch (c.pick({2, 8, 3, 1})) {
      case 0: { Bytes p = c.content(c.length(maxlen, 64)); c.say("one-call %zu", p.size()); oneshot(p, off); break; }
      case 1: { if (!open) { init(); c.say("init"); } Bytes p = c.content(c.length(maxlen, 64)); c.say("update %zu", p.size()); c.cls("incremental update"); update(p, off); break; }
      case 2: if (!open) init(); c.say("final"); final("incremental"); break;
      case 3: if (open) c.cls("abandoned and re-initialised"); init(); c.say("init"); break;
    }
  }
  Session *clone() const override { return new Md5Session(*this); }
  const char *name() const override { return b.name; }
};
// ------------------------------------------------------------------ DES
// DES keys: besides the usual patterns, keys whose two 28-bit halves repeat with a short period:
// weak (period 1), semi-weak (2), possibly weak (4), and (7, 14) others with few distinct subkeys
inline Bytes des_keylike(Choices &c) {
  if (!c.chance(1, 8)) return c.keylike(8);
  static const uint8_t PC1[56] = {57,49,41,33,25,17,9,1,58,50,42,34,26,18,10,2,59,51,43,35,27,19,11,3,60,52,44,36,63,55,47,39,31,23,15,7,62,54,46,38,30,22,14,6,61,53,45,37,29,21,13,5,28,20,12,4};
  static const int period[] = {1, 2, 4, 7, 14}; uint8_t par = c.chance(1, 2) ? 1 : c.byte(); Bytes k(8, 0);
  for (int half = 0; half < 2; half++) { int p = period[c.below(5)]; uint32_t v = c.word(2); for (int i = 0; i < 28; i++) if (v >> (i % p) & 1) { int bit = PC1[28 * half + i] - 1; k[(size_t)bit / 8] |= (uint8_t)(0x80 >> (bit & 7)); } }
  for (int i = 0; i < 8; i++) { int o = __builtin_popcount(k[i] >> 1) & 1; if (par == 1) k[i] |= (uint8_t)!o; else k[i] |= (uint8_t)(par >> i & 1); }
  c.cls("weak, semi-weak or periodic DES key"); return k;
}
struct DesSession : Session {
  Build<DesApi> b; Ctx cs; Bytes key; ref::Des r; bool dec = false; Mem m;
  DesSession(Choices &c, Build<DesApi> b_) : b(b_), cs(b_.api->state, c.word(3)) { m = Mem::gen(c); key = des_keylike(c); load(c, c.chance(1, 2)); }
  DesSession(Choices &c, Build<DesApi> b_, const Bytes &k, bool d) : b(b_), cs(b_.api->state, c.word(3)) { m = Mem::gen(c); key = k; load(c, d); }
  void load(Choices &c, bool d) { dec = d; c.say("des %s key=%s", d ? "decrypt" : "encrypt", pbt::hex(key).c_str()); Buf k(key); if (d) LIB(m, b.api->dec_key(cs, k)); else LIB(m, b.api->enc_key(cs, k)); k.check("DES key"); cs.check("DES key schedule: context"); ref::des_key(r, key.data()); }
  Bytes ecb(const Bytes &in, bool single = false) {
    Buf ib(in), ob(in.size(), m.fill);
    if (single) for (size_t i = 0; i < in.size(); i += 8) LIB(m, b.api->block(cs, (uint32_t *)(ob.p() + i), (uint32_t *)(ib.p() + i))); else LIB(m, b.api->ecb(cs, (uint32_t *)ob.p(), (uint32_t *)ib.p(), in.size()));
    ib.check("DES input"); ob.check("DES output"); cs.check("DES context");
    Bytes w(in.size()); for (size_t i = 0; i < in.size(); i += 8) ref::des_block(r, &in[i], &w[i], dec);
    char t[80]; snprintf(t, sizeof t, "DES-ECB %s of %zu bytes%s", dec ? "decryption" : "encryption", in.size(), single ? " (one-block calls)" : ""); pbt::eq_bytes(t, ob.bytes(), w); packets++; return ob.bytes();
  }
  void step(Choices &c, size_t maxlen) override {
    if (again(c, 6)) { if (c.chance(2, 3)) key = des_keylike(c); c.cls("key reload"); load(c, c.chance(1, 2)); return; }
    size_t n = c.length(maxlen / 8, 8) * 8; Bytes in = n == 8 ? c.keylike(8) : c.content(n); bool s = c.chance(1, 3); c.say("ecb %zu%s", n, s ? " single" : ""); Bytes o = ecb(in, s); c.digest(o.data(), o.size());
  }
  Session *clone() const override { return new DesSession(*this); }
  const char *name() const override { return b.name; }
};
// ------------------------------------------------------------------ Hex
struct HexSession : Session {
  Build<HexApi> b; Mem m;
  HexSession(Choices &c, Build<HexApi> b_) : b(b_) { m = Mem::gen(c); }
  static Bytes text(const Bytes &in) { static const char d[] = "0123456789ABCDEF"; Bytes t; for (uint8_t x : in) { t.push_back((uint8_t)d[x >> 4]); t.push_back((uint8_t)d[x & 15]); } return t; }
  Bytes enc(const Bytes &in, size_t off = 0, size_t ooff = 0) { Buf ib(in, off), o(2 * in.size() + 1, m.fill, ooff); LIB(m, b.api->enc((char *)o.p(), ib, (int)in.size())); ib.check("hex_encode input"); o.check("hex_encode output"); Bytes w = text(in); w.push_back(0); char t[60]; snprintf(t, sizeof t, "hex_encode of %zu bytes", in.size()); pbt::eq_bytes(t, o.bytes(), w); w.pop_back(); packets++; return w; }
  Bytes dec(const Bytes &txt, size_t off = 0, size_t ooff = 0) { Buf ib(txt, off), o(txt.size() / 2, m.fill, ooff); LIB(m, b.api->dec(o, (const char *)ib.p(), (int)txt.size())); ib.check("hex_decode input"); o.check("hex_decode output"); packets++; return o.bytes(); }
  void dec_check(const Bytes &want, size_t off = 0, size_t ooff = 0) { char t[60]; snprintf(t, sizeof t, "hex_decode of %zu digits", 2 * want.size()); pbt::eq_bytes(t, dec(text(want), off, ooff), want); }
  void step(Choices &c, size_t maxlen) override { Bytes in = c.content(c.length(maxlen, 16)); size_t off = c.chance(1, 3) ? c.below(8) : 0, oo = c.chance(1, 3) ? c.below(8) : 0; if (c.chance(1, 2)) { c.say("hex_encode %zu", in.size()); enc(in, off, oo); } else { c.say("hex_decode %zu", 2 * in.size()); dec_check(in, off, oo); } }
  Session *clone() const override { return new HexSession(*this); }
  const char *name() const override { return b.name; }
};

// one session of a generated algorithm among those linked in
typedef Session *(*Maker)(Choices &);
template <class S, class T> Session *mk(Choices &c, const std::vector<Build<T>> &v) { return new S(c, v[c.below(v.size())]); }
static inline std::vector<Maker> makers() {
  std::vector<Maker> v;
  if (!ctr_builds().empty()) v.push_back([](Choices &c) { return mk<CtrSession>(c, ctr_builds()); });
  if (!cfb_builds().empty()) v.push_back([](Choices &c) { return mk<CfbSession>(c, cfb_builds()); });
  if (!aegis_builds().empty()) v.push_back([](Choices &c) { return mk<AegisSession>(c, aegis_builds()); });
  if (!chacha_builds().empty()) v.push_back([](Choices &c) { return mk<ChachaSession>(c, chacha_builds()); });
  if (!hc128_builds().empty()) v.push_back([](Choices &c) { return mk<Hc128Session>(c, hc128_builds()); });
  if (!rabbit_builds().empty()) v.push_back([](Choices &c) { return mk<RabbitSession>(c, rabbit_builds()); });
  if (!sosemanuk_builds().empty()) v.push_back([](Choices &c) { return mk<SosemanukSession>(c, sosemanuk_builds()); });
  if (!serpent_builds().empty()) v.push_back([](Choices &c) { return mk<SerpentSession>(c, serpent_builds()); });
  if (!sha_builds().empty()) v.push_back([](Choices &c) { return mk<ShaSession>(c, sha_builds()); });
  if (!hmac_builds().empty()) v.push_back([](Choices &c) { return mk<HmacSession>(c, hmac_builds()); });
  if (!md5_builds().empty()) v.push_back([](Choices &c) { return mk<Md5Session>(c, md5_builds()); });
  if (!des_builds().empty()) v.push_back([](Choices &c) { return mk<DesSession>(c, des_builds()); });
  if (!hex_builds().empty()) v.push_back([](Choices &c) { return mk<HexSession>(c, hex_builds()); });
  return v;
}
template <class T> const Build<T> &any_build(Choices &c, const std::vector<Build<T>> &v) { return v[c.below(v.size())]; }
