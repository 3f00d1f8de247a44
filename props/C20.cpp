// DES counter mode: involution, prefix, distinct keystream, key-independent counter blocks.
#include "sessions.h"
#include <algorithm>
static const DesApi *api() { return des_builds()[0].api; }
static Bytes ctr(Choices &c, const Bytes &key, const Bytes &nonce, const Bytes &in, Ctx *reuse = nullptr) {
  Ctx own(api()->state, c.word(2)); Ctx &cs = reuse ? *reuse : own; if (!reuse) { Buf k(key); api()->enc_key(cs, k); } Mem m = Mem::gen(c); Buf ib(in), ob(in.size(), m.fill), v(nonce);
  LIB(m, api()->ctr(cs, (uint32_t *)ob.p(), (uint32_t *)ib.p(), (uint32_t *)v.p(), in.size())); ib.check("DES-CTR input"); ob.check("DES-CTR output"); v.check("DES-CTR nonce"); cs.check("DES-CTR context"); return ob.bytes();
}
static Bytes gen_nonce(Choices &c) { Bytes n = c.keylike(8); if (c.chance(1, 3)) { size_t at = c.below(5); for (size_t i = at; i < at + 4; i++) n[i] = 0xff; if (c.chance(1, 2)) n[at + (c.chance(1, 2) ? 0 : 3)] = (uint8_t)(256 - c.range(1, 40)); c.cls("counter near overflow"); } return n; }
static Bytes msg(Choices &c, size_t maxblocks) { return c.content(c.length(maxblocks, 4) * 8); }
static void distinct(const Bytes &ks, const char *what) {
  std::vector<uint64_t> v(ks.size() / 8); if (!v.empty()) memcpy(v.data(), ks.data(), ks.size()); std::vector<uint64_t> s(v); std::sort(s.begin(), s.end()); auto it = std::adjacent_find(s.begin(), s.end()); if (it == s.end()) return;
  size_t a = (size_t)(std::find(v.begin(), v.end(), *it) - v.begin()), b = (size_t)(std::find(v.begin() + (long)a + 1, v.end(), *it) - v.begin()); pbt::fail("%s: keystream blocks %zu and %zu are equal", what, a, b);
}
// the keystream of a long message starts with the keystream of shorter ones
static void prefix(Choices &c, const Bytes &key, const Bytes &nonce, const Bytes &ks) {
  size_t nb = ks.size() / 8; for (int i = 0; i < 4; i++) { size_t m = i == 0 ? 1 + c.below(60) : i == 1 ? 1 + c.below(nb) : i == 2 ? nb - 1 - c.below(2) : nb / 2; if (m > nb) continue; Bytes s = ctr(c, key, nonce, Bytes(8 * m, 0)); char t[120]; snprintf(t, sizeof t, "keystream of %zu blocks against that of %zu blocks", nb, m); pbt::eq_bytes(t, Bytes(ks.begin(), ks.begin() + (long)(8 * m)), s); }
}
PROPERTY(message, 6) {
  Bytes key = des_keylike(c), nonce = gen_nonce(c), in = msg(c, 150); c.say("key=%s nonce=%s %zu bytes", pbt::hex(key).c_str(), pbt::hex(nonce).c_str(), in.size()); c.nontrivial(in.size() > 8); c.cls(in.size() > 8 ? "several blocks" : "one block or none");
  Bytes ct = ctr(c, key, nonce, in); c.digest(ct.data(), ct.size()); pbt::eq_bytes("processed twice", ctr(c, key, nonce, ct), in);
  Bytes ks = xored(ct, in); Bytes z = ctr(c, key, nonce, Bytes(in.size(), 0)); pbt::eq_bytes("keystream (message XOR ciphertext) against the keystream of zeros", ks, z); distinct(ks, "message");
  size_t n = in.empty() ? 0 : c.below(in.size() / 8 + 1) * 8; Bytes sh(in.begin(), in.begin() + (long)n); pbt::eq_bytes("shorter message", ctr(c, key, nonce, sh), Bytes(ct.begin(), ct.begin() + (long)n));
}
// the counter blocks behind the keystream: the same for every key, and pairwise different
PROPERTY(counter_blocks, 4) {
  Bytes k1 = des_keylike(c), k2 = des_keylike(c), nonce = gen_nonce(c); size_t nb = 1 + c.length(60, 4); Bytes z(nb * 8, 0), a = ctr(c, k1, nonce, z), b = ctr(c, k2, nonce, z); ref::Des d1, d2; ref::des_key(d1, k1.data()); ref::des_key(d2, k2.data()); c.nontrivial(); c.cls("counter blocks of two keys"); c.say("nonce=%s %zu blocks", pbt::hex(nonce).c_str(), nb); Bytes cb(nb * 8), cb2(nb * 8);
  for (size_t i = 0; i < nb; i++) { ref::des_block(d1, &a[8 * i], &cb[8 * i], true); ref::des_block(d2, &b[8 * i], &cb2[8 * i], true); char t[80]; snprintf(t, sizeof t, "counter block %zu under the second key", i); pbt::eq_bytes(t, &cb2[8 * i], &cb[8 * i], 8); }
  distinct(cb, "counter blocks");
  Bytes n2 = nonce; size_t bit = c.below(64); n2[bit / 8] ^= (uint8_t)(1u << (bit & 7)); Bytes e = ctr(c, k1, n2, z); CHECK(e != a, "two nonces give one keystream (%zu blocks)", nb);
  // counter block i must not depend on the length of the message
  size_t m = 1 + c.below(nb); Bytes s = ctr(c, k1, nonce, Bytes(8 * m, 0)); pbt::eq_bytes("keystream of a shorter message", s, Bytes(a.begin(), a.begin() + (long)(8 * m)));
}
// one context, many packets; ECB calls in between; the context is not used up
PROPERTY(history, 3) {
  Bytes key = des_keylike(c); Ctx cs(api()->state, c.word(2)); Buf k(key); api()->enc_key(cs, k); int n = (int)c.range(2, 10); c.nontrivial(); c.cls("many packets on one context"); 
  for (int i = 0; i < n; i++) { if (c.chance(1, 5)) { key = des_keylike(c); Buf kk(key); api()->enc_key(cs, kk); c.cls("key reload"); } if (c.chance(1, 4)) { Buf x(c.keylike(8)), y(8); api()->ecb(cs, (uint32_t *)y.p(), (uint32_t *)x.p(), 8); } Bytes nonce = gen_nonce(c), in = msg(c, 40); c.say("%zu", in.size()); Bytes a = ctr(c, key, nonce, in, &cs), b = ctr(c, key, nonce, in); pbt::eq_bytes("reused context against a fresh one", a, b); }
}
PROPERTY(long_message, 0) {
  Bytes key = des_keylike(c), nonce = gen_nonce(c); size_t nb = c.chance(1, 3) ? c.near_power(18) : c.chance(1, 2) ? 66000 + c.below(140000) : 1000 + c.below(20000); c.nontrivial(); c.cls(nb > 65536 ? "more than 65536 blocks" : "thousands of blocks"); c.say("nonce=%s %zu blocks", pbt::hex(nonce).c_str(), nb); Bytes ks = ctr(c, key, nonce, Bytes(nb * 8, 0)); distinct(ks, "long message"); prefix(c, key, nonce, ks); Bytes in = c.content(nb * 8); pbt::eq_bytes("processed twice", ctr(c, key, nonce, ctr(c, key, nonce, in)), in);
}
// more than 2^24 blocks in one message
PROPERTY(huge_message, 0) { Bytes key = des_keylike(c), nonce = gen_nonce(c); size_t nb = ((size_t)1 << 24) + 5000 + c.below(1000); c.nontrivial(); c.cls("more than 2^24 blocks"); c.say("nonce=%s %zu blocks", pbt::hex(nonce).c_str(), nb); Bytes ks = ctr(c, key, nonce, Bytes(nb * 8, 0)); distinct(ks, "huge message"); prefix(c, key, nonce, ks); }
// a size that needs more than 32 bits: the counter blocks of the last megabyte are all different, no block of the beginning is among them, and they do not depend on the key
PROPERTY(enormous_message, 0) {
  auto &b = des_builds()[0]; Bytes key[2] = {c.keylike(8), c.keylike(8)}, nonce = gen_nonce(c); size_t n = ((size_t)1 << 32) + 8 * (1 + c.below(400)), last = 131072; c.nontrivial(); c.cls("more than 4 GiB"); c.say("nonce=%s %zu bytes, two keys", pbt::hex(nonce).c_str(), n);
  Ring in(n), out0(n), out1(n); Ring *out[2] = {&out0, &out1}; in.fill(c.word(4)); Bytes cb[2]; 
  in_threads(2, [&](size_t i) {
    Ctx st(b.api->state, 1); Bytes k = key[i], v = nonce; b.api->enc_key(st, k.data()); ref::Des d; ref::des_key(d, key[i].data());
    b.api->ctr(st, (uint32_t *)out[i]->base, (uint32_t *)in.base, (uint32_t *)v.data(), n); cb[i].resize(8 * last);
    for (size_t j = 0; j < last; j++) { uint8_t ks[8]; size_t at = n - 8 * (last - j); for (int l = 0; l < 8; l++) ks[l] = out[i]->base[at + (size_t)l] ^ in.base[at + (size_t)l]; ref::des_block(d, ks, &cb[i][8 * j], true); }
    Bytes z(8 * last, 0), s(8 * last); v = nonce; b.api->ctr(st, (uint32_t *)s.data(), (uint32_t *)z.data(), (uint32_t *)v.data(), z.size()); for (size_t j = 0; j < last; j++) { uint8_t x[8]; ref::des_block(d, &s[8 * j], x, true); cb[i].insert(cb[i].end(), x, x + 8); }
  });
  CHECK(cb[0] == cb[1], "the counter blocks of a message of %zu bytes depend on the key", n); distinct(cb[0], "counter blocks at the end and at the beginning of the message");
}
// past 2^16 packets on one context
PROPERTY(many_calls, 0) {
  Bytes key = des_keylike(c); Ctx cs(api()->state, c.word(2)); Buf k(key); api()->enc_key(cs, k); int n = (int)c.range(66000, 72000); c.nontrivial(); c.cls("many calls, one key"); c.say("%d packets", n); uint64_t seed = c.word(5);
  for (int i = 0; i < n;) { Bytes e(8192); pbt::expand(seed++, e.data(), e.size()); Choices x(e.data(), e.size()); for (; i < n && x.used() + 400 < e.size(); i++) { Bytes nonce = gen_nonce(x), in = msg(x, 3), a = ctr(x, key, nonce, in, &cs), b = ctr(x, key, nonce, in); pbt::eq_bytes("a context used many times against a fresh one", a, b); } }
}
