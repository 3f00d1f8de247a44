// HC-128, Rabbit, Sosemanuk: sessions of many packets.
#include "sessions.h"
// one session against the model (which hands keystream units out once each)
static void session(Choices &c, int n, size_t maxlen) {
  std::unique_ptr<Session> s; switch (c.below(3)) { case 0: s.reset(mk<Hc128Session>(c, hc128_builds())); break; case 1: s.reset(mk<RabbitSession>(c, rabbit_builds())); break; default: s.reset(mk<SosemanukSession>(c, sosemanuk_builds())); }
  c.cls(s->name()); for (int i = 0; i < n; i++) s->step(c, maxlen); c.nontrivial(s->packets >= 2);
}
PROPERTY(history, 6) { session(c, (int)c.range(2, 24), c.chance(1, 5) ? 5000 : 150); }
// sender and receiver, driven alike; no model
struct Peer { int kind; const Hc128Api *h; const RabbitApi *r; const SosemanukApi *s; std::unique_ptr<Ctx> cs;
  Peer(Choices &c, int k) : kind(k) { h = hc128_builds()[0].api; r = rabbit_builds()[0].api; s = sosemanuk_builds()[0].api; cs.reset(new Ctx(k == 0 ? h->state : k == 1 ? r->state : s->state, c.word(2))); }
  void key(const Bytes &k, const Bytes &iv) { Buf kb(k), v(iv); if (kind == 0) h->init(*cs, kb, v); else if (kind == 1) { r->load_key(*cs, kb); r->load_iv(*cs, v); } else { s->load_key(*cs, kb, (int)k.size()); s->load_iv(*cs, v); } }
  void iv(const Bytes &k, const Bytes &v_) { Buf kb(k), v(v_); if (kind == 0) h->init(*cs, kb, v); else if (kind == 1) r->load_iv(*cs, v); else s->load_iv(*cs, v); }
  Bytes packet(const Bytes &in) { Buf ib(in), o(in.size(), 0x42); if (kind == 0) h->packet(*cs, o, ib, in.size()); else if (kind == 1) r->packet(*cs, o, ib, in.size()); else s->packet(*cs, o, ib, in.size()); ib.check("input"); o.check("output"); return o.bytes(); } };
static const char *NAME[3] = {"hc128", "rabbit", "sosemanuk"};
PROPERTY(two_ends, 3) {
  int k = (int)c.below(3); Peer a(c, k), b(c, k); Bytes key = c.keylike(16), iv = c.keylike(k == 1 ? 8 : 16); a.key(key, iv); b.key(key, iv); int n = (int)c.range(2, 20); c.nontrivial(); c.cls("two ends"); c.say("%s", NAME[k]);
  for (int i = 0; i < n; i++) { if (c.chance(1, 10)) { iv = c.keylike(iv.size()); a.iv(key, iv); b.iv(key, iv); c.cls("IV reload"); } Bytes in = c.content(c.length(c.chance(1, 8) ? 4500 : 150, 16)); c.say("%zu", in.size()); Bytes ct = a.packet(in); char t[80]; snprintf(t, sizeof t, "%s packet %d (%zu bytes) at the receiver", NAME[k], i + 1, in.size()); pbt::eq_bytes(t, b.packet(ct), in); }
}
// keystream blocks (first 8 bytes of each 16) never repeat within a session; no model
PROPERTY(no_reuse, 2) {
  int k = (int)c.below(3); Peer a(c, k); Bytes key = c.keylike(16), iv = c.keylike(k == 1 ? 8 : 16); a.key(key, iv); int n = (int)c.range(2, 16); c.nontrivial(); c.cls("keystream reuse"); c.say("%s", NAME[k]); std::vector<uint64_t> seen;
  for (int i = 0; i < n; i++) { size_t len = c.length(200, 16); Bytes o = a.packet(Bytes(len, 0)); c.say("%zu", len); for (size_t j = 0; j + 8 <= len; j += 8) { uint64_t v; memcpy(&v, &o[j], 8); for (uint64_t x : seen) CHECK(x != v, "%s packet %d repeats eight keystream bytes of this session at offset %zu", NAME[k], i + 1, j); seen.push_back(v); } }
}
// after any history, loading the IV gives what a fresh context gives
PROPERTY(restart, 3) {
  int k = (int)c.below(3); Peer a(c, k), f(c, k); Bytes key = c.keylike(16), iv = c.keylike(k == 1 ? 8 : 16); a.key(k == 1 || k == 2 ? key : c.keylike(16), c.keylike(iv.size())); int n = (int)c.range(1, 8); c.nontrivial(); c.cls("restart equals fresh"); c.say("%s", NAME[k]);
  for (int i = 0; i < n; i++) { size_t len = c.length(c.chance(1, 6) ? 4500 : 100, 16); c.say("%zu", len); a.packet(Bytes(len, 1)); if (c.chance(1, 4)) a.iv(key, c.keylike(iv.size())); }
  if (c.chance(1, 3)) { key = c.keylike(16); a.key(key, iv); c.cls("new key"); } else a.iv(key, iv); f.key(key, iv);
  for (int i = 0; i < 3; i++) { Bytes in = c.content(c.length(200, 16)); char t[80]; snprintf(t, sizeof t, "%s packet %d after restarting, against a fresh context", NAME[k], i + 1); pbt::eq_bytes(t, a.packet(in), f.packet(in)); }
}
PROPERTY(long_session, 0) { c.cls("hundreds of packets"); session(c, (int)c.range(200, 500), c.chance(1, 3) ? 6000 : 100); }
// megabytes of history between the packets
PROPERTY(far_session, 0) { c.cls("megabytes of history"); session(c, (int)c.range(6, 12), 2500000); }
// past 2^16 calls on one context
PROPERTY(many_calls, 0) { std::unique_ptr<Session> s; switch (c.below(3)) { case 0: s.reset(mk<Hc128Session>(c, hc128_builds())); break; case 1: s.reset(mk<RabbitSession>(c, rabbit_builds())); break; default: s.reset(mk<SosemanukSession>(c, sosemanuk_builds())); } many_calls(c, *s, (int)c.range(66000, 72000)); }
