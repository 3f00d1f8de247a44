// DES-ECB: FIPS 46-3, inversion, parity, one-block and multi-block calls.
#include "sessions.h"
static Bytes gen_key(Choices &c) { return des_keylike(c); }
static Bytes blocks(Choices &c, size_t max) { size_t n = c.length(max, 4) * 8; return n == 8 ? c.keylike(8) : c.content(n); }
PROPERTY(message, 6) {
  bool dec = c.chance(1, 2); DesSession s(c, des_builds()[0], gen_key(c), dec), r(c, des_builds()[0], s.key, !dec); Bytes in = blocks(c, 120); bool single = c.chance(1, 4); c.say("%zu bytes%s", in.size(), single ? ", one-block calls" : ""); c.nontrivial(!in.empty()); c.cls(dec ? "decryption schedule" : "encryption schedule"); c.cls(in.size() > 8 ? "several blocks" : "one block"); if (single) c.cls("one-block calls");
  Bytes o = s.ecb(in, single); c.digest(o.data(), o.size()); pbt::eq_bytes("inverse schedule", r.ecb(o, c.chance(1, 4)), in);
}
PROPERTY(history, 3) { DesSession s(c, des_builds()[0]); int n = (int)c.range(2, 20); c.nontrivial(); c.cls("many calls on one context"); for (int i = 0; i < n; i++) s.step(c, 160); }
// parity bits; complementation (both without a model)
PROPERTY(relations, 2) {
  const DesApi *a = des_builds()[0].api; Bytes key = gen_key(c), in = blocks(c, 20); bool dec = c.chance(1, 2); uint8_t par = c.byte(); Bytes k2 = key, k3 = key, in3 = in; for (int i = 0; i < 8; i++) { if (par >> i & 1) k2[i] ^= 1; k3[i] ^= 0xff; } for (auto &b : in3) b ^= 0xff;
  auto run = [&](const Bytes &k, const Bytes &x) { Ctx cs(a->state, c.word(2)); Buf kb(k), ib(x), ob(x.size(), c.byte()); if (dec) a->dec_key(cs, kb); else a->enc_key(cs, kb); a->ecb(cs, (uint32_t *)ob.p(), (uint32_t *)ib.p(), x.size()); ob.check("DES output"); return ob.bytes(); };
  c.nontrivial(!in.empty() && par); c.cls("parity and complement relations"); c.say("key %s, parity flips %02x, %zu bytes", pbt::hex(key).c_str(), par, in.size()); Bytes o = run(key, in); pbt::eq_bytes("same key with other parity bits", run(k2, in), o); Bytes oc = run(k3, in3); for (auto &b : oc) b ^= 0xff; pbt::eq_bytes("complement of key and block", oc, o);
}
// single bits of key and block: walks every table entry many times
PROPERTY(bit_walk, 1) {
  DesSession s(c, des_builds()[0], gen_key(c), false); Bytes in = c.keylike(8); c.nontrivial(); c.cls("every single bit of key and block"); c.say("block %s", pbt::hex(in).c_str()); for (int b = 0; b < 64; b++) { in[(size_t)b / 8] ^= (uint8_t)(0x80 >> (b & 7)); s.ecb(in); in[(size_t)b / 8] ^= (uint8_t)(0x80 >> (b & 7)); s.key[(size_t)b / 8] ^= (uint8_t)(0x80 >> (b & 7)); s.load(c, (b + in[0]) & 1); s.ecb(in); s.key[(size_t)b / 8] ^= (uint8_t)(0x80 >> (b & 7)); s.load(c, false); }
}
PROPERTY(long_message, 0) { DesSession s(c, des_builds()[0]); size_t n = (c.chance(1, 3) ? c.near_power(20) : (size_t)c.range(0, 2) * 70000 + c.length(9000, 4)) * 8; c.nontrivial(n > 8); c.say("%zu bytes", n); c.cls(n > 524288 ? "more than 65536 blocks" : "long"); s.ecb(c.content(n)); }
// a size that needs more than 32 bits
PROPERTY(enormous_message, 0) {
  auto &b = des_builds()[0]; Bytes key = gen_key(c); bool dec = c.chance(1, 2); size_t n = ((size_t)1 << 32) + 8 * (1 + c.below(400)); c.nontrivial(); c.cls("more than 4 GiB"); c.say("%s %zu bytes", dec ? "decryption" : "encryption", n);
  Ring in(n), out(n); in.fill(c.word(4)); Ctx st(b.api->state, 1); Bytes k = key; if (dec) b.api->dec_key(st, k.data()); else b.api->enc_key(st, k.data()); b.api->ecb(st, (uint32_t *)out.base, (uint32_t *)in.base, n);
  ref::Des d; ref::des_key(d, key.data()); uint8_t w[8]; for (size_t j = n - 8 * 100000; j < n; j += 8) { ref::des_block(d, in.base + j, w, dec); CHECK(!memcmp(w, out.base + j, 8), "block at %zu of a message of %zu bytes is wrong", j, n); }
}
// past 2^16 calls on one context
PROPERTY(many_calls, 0) { DesSession s(c, any_build(c, des_builds())); many_calls(c, s, (int)c.range(66000, 72000)); }
