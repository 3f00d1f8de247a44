// Working in place: a stream cipher, ECB, counter-mode or CFB-encryption call whose output buffer is its input buffer
// gives what the same call gives with two buffers, throughout a session of mixed calls.
#include "sessions.h"
#include <functional>
struct Pair { const char *name; std::function<void(Ctx &, Choices &)> init, again; std::function<void(Ctx &, uint8_t *, uint8_t *, size_t)> packet; StateInfo state; size_t unit, most; };
static std::vector<std::function<Pair(Choices &)>> makers_in_place() {
  std::vector<std::function<Pair(Choices &)>> v;
  auto add_ctr = [&](const std::vector<Build<AesCtrApi>> &bs) { for (auto &b : bs) v.push_back([b](Choices &c) { auto k = std::make_shared<Bytes>(c.keylike(16)), n = std::make_shared<Bytes>(c.keylike(12)); auto *a = b.api; auto iv = [=](Ctx &s, Choices &) { Buf y(*n); a->load_iv(s, y); }; return Pair{b.name, [=](Ctx &s, Choices &d) { Buf x(*k); a->load_key(s, x); iv(s, d); }, iv, [=](Ctx &s, uint8_t *o, uint8_t *i, size_t l) { a->packet(s, o, i, (int)l); }, a->state, 1, 0}; }); };
  add_ctr(ctr_builds()); 
  for (auto &b : cfb_builds()) v.push_back([b](Choices &c) { auto k = std::make_shared<Bytes>(c.keylike(16)), n = std::make_shared<Bytes>(c.keylike(16)); auto *a = b.api; auto in = [=](Ctx &s, Choices &) { Buf x(*k), y(*n); a->init(s, x, y); }; return Pair{b.name, in, in, [=](Ctx &s, uint8_t *o, uint8_t *i, size_t l) { a->packet(s, o, i, (int)l, 0); }, a->state, 1, 0}; });
  for (auto &b : chacha_builds()) v.push_back([b](Choices &c) { auto k = std::make_shared<Bytes>(c.keylike(32)), n = std::make_shared<Bytes>(c.keylike(12)); auto *a = b.api; auto in = [=](Ctx &s, Choices &) { Buf x(*k), y(*n); a->init(s, x, y); }; return Pair{b.name, in, in, [=](Ctx &s, uint8_t *o, uint8_t *i, size_t l) { a->packet(s, o, i, l); }, a->state, 1, 0}; });
  for (auto &b : hc128_builds()) v.push_back([b](Choices &c) { auto k = std::make_shared<Bytes>(c.keylike(16)), n = std::make_shared<Bytes>(c.keylike(16)); auto *a = b.api; auto in = [=](Ctx &s, Choices &) { Buf x(*k), y(*n); a->init(s, x, y); }; return Pair{b.name, in, in, [=](Ctx &s, uint8_t *o, uint8_t *i, size_t l) { a->packet(s, o, i, l); }, a->state, 1, 0}; });
  for (auto &b : rabbit_builds()) v.push_back([b](Choices &c) { auto k = std::make_shared<Bytes>(c.keylike(16)), n = std::make_shared<Bytes>(c.keylike(8)); auto *a = b.api; auto iv = [=](Ctx &s, Choices &) { Buf y(*n); a->load_iv(s, y); }; return Pair{b.name, [=](Ctx &s, Choices &d) { Buf x(*k); a->load_key(s, x); iv(s, d); }, iv, [=](Ctx &s, uint8_t *o, uint8_t *i, size_t l) { a->packet(s, o, i, l); }, a->state, 1, 0}; });
  for (auto &b : sosemanuk_builds()) v.push_back([b](Choices &c) { auto k = std::make_shared<Bytes>(c.keylike((size_t)c.range(1, 32))), n = std::make_shared<Bytes>(c.keylike(16)); auto *a = b.api; auto iv = [=](Ctx &s, Choices &) { Buf y(*n); a->load_iv(s, y); }; return Pair{b.name, [=](Ctx &s, Choices &d) { Buf x(*k); a->load_key(s, x, (int)k->size()); iv(s, d); }, iv, [=](Ctx &s, uint8_t *o, uint8_t *i, size_t l) { a->packet(s, o, i, l); }, a->state, 1, 0}; });
  for (auto &b : des_builds()) for (int mode = 0; mode < 3; mode++) v.push_back([b, mode](Choices &c) { auto k = std::make_shared<Bytes>(c.keylike(8)), n = std::make_shared<Bytes>(c.keylike(8)); auto *a = b.api; static const char *const names[] = {"des ecb encryption", "des ecb decryption", "des ctr"}; auto in = [=](Ctx &s, Choices &) { Buf x(*k); if (mode == 1) a->dec_key(s, x); else a->enc_key(s, x); }; return Pair{names[mode], in, in, [=](Ctx &s, uint8_t *o, uint8_t *i, size_t l) { Buf y(*n); if (mode == 2) a->ctr(s, (uint32_t *)o, (uint32_t *)i, (uint32_t *)y.p(), l); else a->ecb(s, (uint32_t *)o, (uint32_t *)i, l); }, a->state, 8, 0}; });
  return v;
}
static void run(Choices &c, size_t maxlen, int most) {
  auto mk = makers_in_place(); Pair p = mk[c.below(mk.size())](c); Ctx x(p.state, c.word(3)), y(p.state, c.word(3)); p.init(x, c); p.init(y, c); c.cls(p.name); c.say("%s", p.name); int n = (int)c.range(1, (uint64_t)most), done = 0; Mem m = Mem::gen(c);
  for (int i = 0; i < n; i++) {
    if (c.chance(1, 10)) { p.again(x, c); p.again(y, c); c.say("again"); }
    Bytes in = c.content(c.length(maxlen / p.unit, 16) * p.unit); bool ip = c.chance(3, 4); c.say("%s%zu", ip ? "in place " : "", in.size()); Buf ib(in), ob(in.size(), m.fill), b2(in), o2(in.size(), m.fill); if (ip && !in.empty()) memcpy(o2.p(), in.data(), in.size()); LIB(m, p.packet(x, ob, ib, in.size())); ob.check("output"); ib.check("input");
    if (ip) { LIB(m, p.packet(y, o2, o2, in.size())); } else { LIB(m, p.packet(y, o2, b2, in.size())); } o2.check("in-place buffer"); char t[100]; snprintf(t, sizeof t, "%s packet %d (%zu bytes) %s", p.name, i + 1, in.size(), ip ? "in place" : "with two buffers"); Bytes got = o2.bytes(); pbt::eq_bytes(t, got, ob.bytes()); c.digest(got.data(), got.size()); done += ip && !in.empty();
  }
  c.nontrivial(done > 0);
}
PROPERTY(session, 6) { run(c, c.chance(1, 6) ? 3000 : 200, 8); }
PROPERTY(long_session, 0) { run(c, c.chance(1, 4) ? 300000 : 20000, 30); }
