// Short histories of one algorithm as functions of their surroundings (C26, C29)
#pragma once
#include "sessions.h"
#include <functional>
#include <malloc.h>
[[maybe_unused]] static void heap(Choices &c) { (void)c;
#ifdef M_PERTURB
  static const int fills[] = {1, 0xff, 0x80, 0x55}; mallopt(M_PERTURB, fills[c.below(4)]);
#endif
}
struct Env { uint8_t fill; uint64_t ctx, paint; size_t off; };
static Env env(Choices &c) { Env e{c.byte(), c.word(3), c.word(2) * 0x9e3779b97f4a7c15ull + 1, c.below(16)}; heap(c); return e; }
static void put(Bytes &to, Buf &b) { b.check("buffer"); to.insert(to.end(), b.p(), b.p() + b.n()); }
#define ENV_LIB(e, call) do { pbt::paint_stack((e).paint); call; } while (0)
typedef std::function<Bytes(const Env &)> Op;
// a short history of one algorithm, closed over its arguments
static Op gen(Choices &c, uint64_t first = 0, uint64_t end = 14) {
  int n = (int)c.range(1, 4); std::vector<Bytes> ms; size_t unit = 16, max = c.chance(1, 6) ? 3000 : 150; Bytes k16 = c.keylike(16), k32 = c.keylike(32), v16 = c.keylike(16), v12(v16.begin(), v16.begin() + 12), v8(v16.begin(), v16.begin() + 8); bool flag = c.chance(1, 2); int small = (int)c.range(1, 32);
  int which = (int)c.range(first, end - 1); if (which == 8 || which == 9 || which == 10) unit = 64; for (int i = 0; i < n; i++) ms.push_back(c.content(c.length(max, unit))); for (auto &m : ms) c.say("%zu", m.size());
  auto name = [&](const char *s) { c.cls(s); c.say("%s", s); };
  switch (which) {
    case 0: { auto b = any_build(c, ctr_builds()); name(b.name); return [=](const Env &e) { Bytes r; Ctx s(b.api->state, e.ctx); Buf k(k16), v(v12); if (flag) { ENV_LIB(e, b.api->load_key(s, k)); ENV_LIB(e, b.api->load_iv(s, v)); } else { ENV_LIB(e, b.api->load_iv(s, v)); ENV_LIB(e, b.api->load_key(s, k)); } for (auto &m : ms) { Buf i(m), o(m.size(), e.fill); ENV_LIB(e, b.api->packet(s, o, i, (int)m.size())); put(r, o); } return r; }; }
    case 1: { auto b = any_build(c, cfb_builds()); name(b.name); return [=](const Env &e) { Bytes r; Ctx s(b.api->state, e.ctx); Buf k(k16), v(v16); ENV_LIB(e, b.api->init(s, k, v)); for (auto &m : ms) { Buf i(m), o(m.size(), e.fill); ENV_LIB(e, b.api->packet(s, o, i, (int)m.size(), flag)); put(r, o); } return r; }; }
    case 2: { auto b = any_build(c, aegis_builds()); name(b.name); return [=](const Env &e) { Bytes r; Ctx s(b.api->state, e.ctx); Buf k(k16), v(v16), a(k32); ENV_LIB(e, b.api->load_key(s, k)); for (auto &m : ms) { Buf i(m), o(m.size(), e.fill), t(16, e.fill), p(m.size(), e.fill); int ok = 0; ENV_LIB(e, b.api->enc(s, o, t, i, a, v, small, m.size())); put(r, o); put(r, t); if (flag) t.p()[small % 16] ^= 1; Buf in(o.bytes()), u(t.bytes()); /* a rejected packet's tag may be cleared */ ENV_LIB(e, ok = b.api->dec(s, p, in, a, v, flag ? t : u, small, m.size()) != 0); put(r, p); r.push_back((uint8_t)ok); } return r; }; }
    case 3: { auto b = any_build(c, chacha_builds()); name(b.name); return [=](const Env &e) { Bytes r; Ctx s(b.api->state, e.ctx); Buf k(k32), v(v12); ENV_LIB(e, b.api->init(s, k, v)); for (auto &m : ms) { Buf i(m), o(m.size(), e.fill); ENV_LIB(e, b.api->packet(s, o, i, m.size())); put(r, o); Buf ks(64, e.fill, 0); ENV_LIB(e, b.api->block(s, (uint32_t)small, (uint32_t *)ks.p())); put(r, ks); Buf w(k32), x(32, e.fill), q(64, e.fill, 4); ENV_LIB(e, b.api->byte_swap(x, w, 32)); put(r, x); Buf kc(ks.bytes(), 8); ENV_LIB(e, b.api->quarter((uint32_t *)kc.p(), (uint32_t *)q.p())); put(r, q); } return r; }; }
    case 4: { auto b = hc128_builds()[0]; name(b.name); return [=](const Env &e) { Bytes r; Ctx s(b.api->state, e.ctx); Buf k(k16), v(v16); ENV_LIB(e, b.api->init(s, k, v)); for (auto &m : ms) { Buf i(m), o(m.size(), e.fill); ENV_LIB(e, b.api->packet(s, o, i, m.size())); put(r, o); } return r; }; }
    case 5: { auto b = rabbit_builds()[0]; name(b.name); return [=](const Env &e) { Bytes r; Ctx s(b.api->state, e.ctx); Buf k(k16), v(v8); ENV_LIB(e, b.api->load_key(s, k)); if (flag) ENV_LIB(e, b.api->load_iv(s, v)); for (auto &m : ms) { Buf i(m), o(m.size(), e.fill); ENV_LIB(e, b.api->packet(s, o, i, m.size())); put(r, o); } return r; }; }
    case 6: { auto b = sosemanuk_builds()[0]; name(b.name); return [=](const Env &e) { Bytes r; Ctx s(b.api->state, e.ctx); Buf k(Bytes(k32.begin(), k32.begin() + small)), v(v16); ENV_LIB(e, b.api->load_key(s, k, small)); ENV_LIB(e, b.api->load_iv(s, v)); for (auto &m : ms) { Buf i(m), o(m.size(), e.fill); ENV_LIB(e, b.api->packet(s, o, i, m.size())); put(r, o); } return r; }; }
    case 7: { auto b = any_build(c, serpent_builds()); name(b.name); return [=](const Env &e) { Bytes r; Ctx s(b.api->state, e.ctx); Buf k(Bytes(k32.begin(), k32.begin() + small)), v(v16), o(48, e.fill); ENV_LIB(e, b.api->key(s, k, small)); ENV_LIB(e, b.api->packet(s, (uint32_t *)o.p(), (uint32_t *)v.p(), 16)); put(r, o); return r; }; }
    case 8: { auto b = any_build(c, sha_builds()); name(b.name); return [=](const Env &e) { Bytes r; for (auto &m : ms) { Buf i(m, e.off), d(32, e.fill, e.off / 2); ENV_LIB(e, b.api->digest(d, i, m.size())); put(r, d); } return r; }; }
    case 9: { auto b = hmac_builds()[0]; name(b.name); Bytes kb = c.content(c.length(150, 64)); return [=](const Env &e) { Bytes r; Ctx s(b.api->state, e.ctx); Buf k(kb, e.off); ENV_LIB(e, b.api->load_key(s, k, (int)kb.size())); for (auto &m : ms) if (m.size()) { Buf i(m, e.off / 2), t((size_t)small, e.fill, e.off); int ok = 0; ENV_LIB(e, b.api->gen(s, t, i, m.size(), small)); put(r, t); if (flag) t.p()[0] ^= 1; Buf u(t.bytes(), e.off); ENV_LIB(e, ok = b.api->val(s, u, i, m.size(), small) != 0); r.push_back((uint8_t)ok); } return r; }; }
    case 10: { auto b = md5_builds()[0]; name(b.name); return [=](const Env &e) { Bytes r; Ctx s(b.api->state, e.ctx); Buf d(16, e.fill, e.off / 3); ENV_LIB(e, b.api->init(s)); for (auto &m : ms) { Buf i(m, e.off); ENV_LIB(e, b.api->update(s, i, (uint32_t)m.size())); } ENV_LIB(e, b.api->final(d, s)); put(r, d); Buf i(ms[0], e.off / 2), d2(16, e.fill); ENV_LIB(e, b.api->packet(s, d2, i, (uint32_t)ms[0].size())); put(r, d2); return r; }; }
    case 11: { auto b = des_builds()[0]; name(b.name); return [=](const Env &e) { Bytes r; Ctx s(b.api->state, e.ctx); Buf k(v8); if (flag) ENV_LIB(e, b.api->enc_key(s, k)); else ENV_LIB(e, b.api->dec_key(s, k)); for (auto &m : ms) { size_t n = m.size() / 8 * 8; Buf i(Bytes(m.begin(), m.begin() + (long)n)), o(n, e.fill); ENV_LIB(e, b.api->ecb(s, (uint32_t *)o.p(), (uint32_t *)i.p(), n)); put(r, o); } return r; }; }
    case 12: { auto b = des_builds()[0]; name("des counter mode"); return [=](const Env &e) { Bytes r; Ctx s(b.api->state, e.ctx); Buf k(v8), v(Bytes(k16.begin(), k16.begin() + 8)); ENV_LIB(e, b.api->enc_key(s, k)); for (auto &m : ms) { size_t n = m.size() / 8 * 8; Buf i(Bytes(m.begin(), m.begin() + (long)n)), o(n, e.fill); ENV_LIB(e, b.api->ctr(s, (uint32_t *)o.p(), (uint32_t *)i.p(), (uint32_t *)v.p(), n)); put(r, o); } return r; }; }
    default: { auto b = hex_builds()[0]; name(b.name); return [=](const Env &e) { Bytes r; for (auto &m : ms) { Buf i(m, e.off), o(2 * m.size() + 1, e.fill, e.off / 2); ENV_LIB(e, b.api->enc((char *)o.p(), i, (int)m.size())); put(r, o); Buf t(Bytes(o.p(), o.p() + 2 * m.size()), e.off / 3), d(m.size(), e.fill, e.off / 4); ENV_LIB(e, b.api->dec(d, (const char *)t.p(), (int)t.n())); put(r, d); } return r; }; }
  }
}
