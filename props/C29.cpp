// Results depend on the arguments only.  The same operations are run several
// times over different leftovers (context, output, heap, stack) and different
// placements; the runs must agree with each other, and (through the models,
// under every compiler and optimisation level of the check) with one answer.
#include "ops.h"
PROPERTY(leftovers, 8) {
  Op op = gen(c); c.nontrivial(); Env a = env(c); Bytes first = op(a); c.digest(first.data(), first.size());
  int n = (int)c.range(1, 3); for (int i = 0; i < n; i++) { if (c.chance(1, 3)) { Choices sub(nullptr, 0); Op other = gen(c); other(env(c)); } Env e = env(c); Bytes again = op(e); pbt::eq_bytes("outputs of the same operations over other leftover memory", again, first); }
}
// the same against the models
PROPERTY(models, 6) { std::vector<Maker> mk = makers(); heap(c); std::unique_ptr<Session> s(mk[c.below(mk.size())](c)); int n = (int)c.range(1, 8); c.nontrivial(); for (int i = 0; i < n; i++) s->step(c, c.chance(1, 6) ? 2000 : 130); }
// every placement of an unaligned buffer
PROPERTY(alignment, 2) {
  size_t n = c.length(200, 64); Bytes m = c.content(n ? n : 1); Bytes key = c.content(c.below(100)); c.nontrivial(); c.cls("sixteen placements"); c.say("%zu bytes", m.size()); ShaSession s(c, any_build(c, sha_builds())); HmacSession h(c, hmac_builds()[0], key); Md5Session d(c, md5_builds()[0]); HexSession x(c, hex_builds()[0]);
  for (size_t o = 0; o < 16; o++) { s.hash(m, o, 15 - o); h.load(c, o); Bytes t = h.gen(m, 32, o, 15 - o); h.val_check(t, m, 15 - o, o); d.oneshot(m, o); x.enc(m, o, 15 - o); x.dec_check(m, 15 - o, o); }
}
// the byte buffers of the ciphers at any address (the functions that take words are left out)
PROPERTY(odd_placement, 0) {
  Op op = gen(c, 0, 7); size_t was = pbt::default_off, o = 1 + c.below(15); c.nontrivial(); c.cls("byte buffers at any address"); c.say("+%zu", o); Env a = env(c); pbt::default_off = 0; Bytes first = op(a); c.digest(first.data(), first.size());
  struct Back { size_t w; ~Back() { pbt::default_off = w; } } back{was}; for (int i = 0; i < 3; i++) { pbt::default_off = i == 0 ? o : i == 1 ? 16 - o : (o * 7) % 16; Bytes r = op(a); char t[80]; snprintf(t, sizeof t, "outputs with all byte buffers at address 16k+%zu", pbt::default_off); pbt::eq_bytes(t, r, first); }
}
PROPERTY(large, 0) { std::vector<Maker> mk = makers(); heap(c); std::unique_ptr<Session> s(mk[c.below(mk.size())](c)); c.nontrivial(); for (int i = 0; i < 3; i++) s->step(c, 60000); }
