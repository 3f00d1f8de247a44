// Memory discipline: every operation on exact-size heap buffers (the address
// sanitizer or guard bands watch their ends), inputs compared afterwards,
// whole outputs compared, any length.  The comparison with the models is what
// shows that the whole output was written.
#include "ops.h"
static void run(Choices &c, int n, size_t maxlen) { std::vector<Maker> mk = makers(); std::unique_ptr<Session> s(mk[c.below(mk.size())](c)); c.cls(s->name()); c.nontrivial(); for (int i = 0; i < n; i++) s->step(c, maxlen); }
PROPERTY(operations, 8) { run(c, (int)c.range(1, 10), c.chance(1, 5) ? 3000 : 200); }
// lengths 0..40 and the neighbourhood of one multiple, one packet each, for one algorithm
PROPERTY(short_lengths, 3) { std::vector<Maker> mk = makers(); size_t which = c.below(mk.size()); c.nontrivial(); c.cls("tiny packets"); for (int i = 0; i < 12; i++) { std::unique_ptr<Session> s(mk[which](c)); s->step(c, 40); s->step(c, 20); } }
// DES counter mode writes exactly the message and leaves nonce and input alone
PROPERTY(des_ctr, 1) {
  const DesApi *a = des_builds()[0].api; Ctx cs(a->state, c.word(2)); Buf k(c.keylike(8)), nonce(c.keylike(8)); a->enc_key(cs, k); Bytes in = c.content(c.length(100, 4) * 8); Buf ib(in), o1(in.size(), 0x11), o2(in.size(), 0xEE); c.nontrivial(!in.empty()); c.cls("DES counter mode"); c.say("%zu bytes", in.size());
  a->ctr(cs, (uint32_t *)o1.p(), (uint32_t *)ib.p(), (uint32_t *)nonce.p(), in.size()); a->ctr(cs, (uint32_t *)o2.p(), (uint32_t *)ib.p(), (uint32_t *)nonce.p(), in.size()); for (Buf *b : {&k, &nonce, &ib, &o1, &o2}) b->check("DES-CTR buffer"); cs.check("DES-CTR context"); pbt::eq_bytes("output written over two different fillings", o1.bytes(), o2.bytes());
}
// rejected AEGIS packets and rejected tags: nothing outside the buffers either
PROPERTY(aegis_rejected, 2) { AegisSession s(c, any_build(c, aegis_builds())); Bytes iv = c.keylike(16), ad = c.content(c.length(300, 16)), ct = c.content(c.length(300, 16)), tag = c.content(16), got; c.nontrivial(); c.cls("random AEGIS packet"); c.say("ad=%zu n=%zu", ad.size(), ct.size()); s.reject_check(iv, ad, ct, tag, "it is random"); }
PROPERTY(chacha_helpers, 1) { const ChachaApi *a = any_build(c, chacha_builds()).api; size_t n = c.below(40) * 4; Buf in(c.content(n)), out(n, 1), q(c.content(64)), qo(64, 3); a->byte_swap(out, in, (int)n); a->quarter((uint32_t *)q.p(), (uint32_t *)qo.p()); in.check("byte_swap input"); out.check("byte_swap output"); q.check("quarter round input"); qo.check("quarter round output"); for (size_t i = 0; i < n; i++) CHECK(out.p()[i] == in.p()[(i & ~(size_t)3) + 3 - (i & 3)], "byte_swap output %zu", i); c.nontrivial(); c.cls("ChaCha helpers"); c.say("byte swap %zu", n); }
// messages larger than the 8 MB stack, for every algorithm in turn
PROPERTY(larger_than_stack, 0) {
  size_t n = 8500000 + c.below(3000000); Bytes in = c.content(n); c.nontrivial(); int which = (int)c.below(13); c.say("%zu bytes, operation %d", n, which);
  switch (which) {
    case 0: { CtrSession s(c, any_build(c, ctr_builds())); c.cls("AES-CTR"); s.packet(in); break; }
    case 1: { CfbSession s(c, any_build(c, cfb_builds())); c.cls("AES-CFB"); s.packet(in, c.chance(1, 2)); break; }
    case 2: { AegisSession s(c, any_build(c, aegis_builds())); c.cls("AEGIS-128"); Bytes ct, t; s.enc_check(c.keylike(16), Bytes(), in, ct, t); break; }
    case 3: { AegisSession s(c, any_build(c, aegis_builds())); c.cls("AEGIS-128 decryption"); s.reject_check(c.keylike(16), in, in, Bytes(16, 7), "it is random"); break; }
    case 4: { ChachaSession s(c, any_build(c, chacha_builds())); c.cls("ChaCha"); s.packet(in); break; }
    case 5: { Hc128Session s(c, hc128_builds()[0]); c.cls("HC-128"); s.packet(in, c.chance(1, 2)); break; }
    case 6: { RabbitSession s(c, rabbit_builds()[0]); c.cls("Rabbit"); s.packet(in); break; }
    case 7: { SosemanukSession s(c, sosemanuk_builds()[0]); c.cls("Sosemanuk"); s.packet(in); break; }
    case 8: { ShaSession s(c, any_build(c, sha_builds())); c.cls("SHA-256"); s.hash(in); break; }
    case 9: { HmacSession s(c, hmac_builds()[0]); c.cls("HMAC"); Bytes t = s.gen(in, 32); s.val_check(t, in); s.key = in; s.load(c); s.gen(Bytes(3, 1), 32); break; }
    case 10: { Md5Session s(c, md5_builds()[0]); c.cls("MD5"); s.oneshot(in); s.init(); s.update(in); s.final("one large piece"); break; }
    case 11: { DesSession s(c, des_builds()[0]); c.cls("DES"); in.resize(n / 8 * 8); s.ecb(in); break; }
    default: { HexSession s(c, hex_builds()[0]); c.cls("hex"); s.enc(in); s.dec_check(in); break; }
  }
}
// inputs in read-only pages (a change that is undone faults), every buffer and context next to an inaccessible page
PROPERTY(pages, 0) {
  Op op = gen(c); Env a = env(c); Bytes first = op(a); struct Back { ~Back() { pbt::pages = 0; } } back; int p = (int)c.range(1, 2); c.nontrivial(); c.cls(p == 1 ? "buffers end at the end of a page" : "buffers start a page"); pbt::pages = p; Bytes r = op(a); pbt::pages = 0; c.digest(r.data(), r.size()); pbt::eq_bytes("the same operations with read-only inputs between inaccessible pages", r, first);
}
// hash-like operations just past 2^29 bytes: no crash, no short read (digests are C15, C16, C18)
PROPERTY(enormous, 0) {
  size_t n = ((size_t)1 << 29) + 1 + c.below(200); uint8_t *in = (uint8_t *)calloc(n, 1), d[32], e[32]; if (!in) _Exit(70); c.nontrivial(); int w = (int)c.below(3); c.say("%zu bytes, operation %d", n, w); c.cls("more than 2^29 bytes");
  memset(d, 1, 32); memset(e, 1, 32); in[n - 1] = 1; bool differs;
  if (w == 0) { const ShaApi *a = any_build(c, sha_builds()).api; a->digest(d, in, n); in[n - 1] = 2; a->digest(e, in, n); }
  else if (w == 1) { const Md5Api *a = md5_builds()[0].api; Ctx cs(a->state, 3); a->packet(cs, d, in, (uint32_t)n); in[n - 1] = 2; a->packet(cs, e, in, (uint32_t)n); }
  else { const HmacApi *a = hmac_builds()[0].api; Ctx cs(a->state, 3); Buf k(Bytes(16, 9)); a->load_key(cs, k, 16); a->gen(cs, d, in, n, 32); in[n - 1] = 2; a->gen(cs, e, in, n, 32); }
  differs = memcmp(d, e, 16) != 0; free(in); CHECK(differs, "the last of %zu bytes does not influence the digest", n);
}
