// Encrypt (AES-CFB or HC-128), tag (HMAC-SHA-256), hex-encode -- and back --
// with an attacker on the line.  Only the library computes; the oracle is the
// list of packets that were sent.
#include "sessions.h"
// wire format of one packet: hex(ciphertext || tag of (sequence number || ciphertext))
struct Cipher { int kind; Build<AesCfbApi> cfb; Build<Hc128Api> hc; std::unique_ptr<Ctx> cs;
  Cipher(Choices &c, int k, const Bytes &key, const Bytes &iv) : kind(k) { Buf kb(key), v(iv); if (!k) { cfb = any_build(c, cfb_builds()); cs.reset(new Ctx(cfb.api->state, c.word(2))); cfb.api->init(*cs, kb, v); } else { hc = hc128_builds()[0]; cs.reset(new Ctx(hc.api->state, c.word(2))); hc.api->init(*cs, kb, v); } }
  Bytes run(const Bytes &in, bool dec, uint8_t fill) { Buf ib(in), o(in.size(), fill); if (!kind) cfb.api->packet(*cs, o, ib, (int)in.size(), dec); else hc.api->packet(*cs, o, ib, in.size()); ib.check("cipher input"); o.check("cipher output"); return o.bytes(); } };
struct Auth { const HmacApi *a; std::unique_ptr<Ctx> cs; Auth(Choices &c, const Bytes &key) { a = hmac_builds()[0].api; cs.reset(new Ctx(a->state, c.word(2))); Buf k(key); a->load_key(*cs, k, (int)key.size()); }
  static Bytes framed(uint32_t seq, const Bytes &ct) { Bytes m(4); memcpy(m.data(), &seq, 4); m.insert(m.end(), ct.begin(), ct.end()); return m; }
  Bytes tag(uint32_t seq, const Bytes &ct, int tl) { Bytes m = framed(seq, ct); Buf mb(m), t((size_t)tl, 0x77); a->gen(*cs, t, mb, m.size(), tl); t.check("tag"); return t.bytes(); }
  bool ok(uint32_t seq, const Bytes &ct, const Bytes &t) { Bytes m = framed(seq, ct); Buf mb(m), tb(t); return a->val(*cs, tb, mb, m.size(), (int)t.size()) != 0; } };
static Bytes enc_hex(const Bytes &b) { Buf ib(b), o(2 * b.size() + 1, 0x55); hex_builds()[0].api->enc((char *)o.p(), ib, (int)b.size()); o.check("hex text"); CHECK(o.p()[2 * b.size()] == 0, "hex text is not terminated"); CHECK(strlen((char *)o.p()) == 2 * b.size(), "hex text of %zu bytes has %zu digits", b.size(), strlen((char *)o.p())); return Bytes(o.p(), o.p() + 2 * b.size()); }
// the receiver's side of decoding: anything that is not canonical hex is refused (by re-encoding)
static bool dec_hex(const Bytes &t, Bytes &out) { if (t.size() % 2) return false; Buf ib(t), o(t.size() / 2, 0x33); hex_builds()[0].api->dec(o, (const char *)ib.p(), (int)t.size()); ib.check("hex text"); o.check("decoded bytes"); out = o.bytes(); return enc_hex(out) == t; }

// whether the text is the canonical hex of a packet with the right tag: then it is no forgery
static bool rightly_tagged(const Bytes &mk, const Bytes &w, uint32_t seq, int tl) {
  if (w.size() % 2 || w.size() < 2 * (size_t)tl) return false; Bytes raw(w.size() / 2); for (size_t i = 0; i < w.size(); i++) { uint8_t ch = w[i]; int d = ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'A' && ch <= 'F' ? ch - 'A' + 10 : -1; if (d < 0) return false; raw[i / 2] = (uint8_t)(raw[i / 2] << 4 | d); }
  Bytes m = Auth::framed(seq, Bytes(raw.begin(), raw.end() - tl)); uint8_t want[32]; ref::hmac_sha256(mk.data(), mk.size(), m.data(), m.size(), want); return !memcmp(want, raw.data() + raw.size() - tl, (size_t)tl);
}
static void channel(Choices &c, int packets, size_t maxlen) {
  int kind = (int)c.below(2); Bytes key = c.keylike(16), iv = c.keylike(16), mk = c.content(1 + c.length(100, 64)); int tl = c.chance(1, 2) ? 32 : (int)c.range(8, 32); Cipher sc(c, kind, key, iv), rc(c, kind, key, iv); Auth sa(c, mk), ra(c, mk); c.cls(kind ? "HC-128" : "AES-CFB"); c.say("%s, tag %d, mac key %zu", kind ? "HC-128" : "AES-CFB", tl, mk.size());
  std::vector<Bytes> wires; int delivered = 0, rejected = 0; uint8_t fill = c.byte(); Bytes bad_key = c.content(1 + c.below(70)); 
  // a packet is deliverable iff it is the wire of the next sequence number
  auto receive = [&](const Bytes &wire, uint32_t seq, Bytes &plain) { Bytes raw; if (!dec_hex(wire, raw) || raw.size() < (size_t)tl) return false; Bytes ct(raw.begin(), raw.end() - tl), t(raw.end() - tl, raw.end()); if (!ra.ok(seq, ct, t)) return false; plain = rc.run(ct, true, fill); return true; };
  for (int i = 0; i < packets; i++) {
    Bytes in = c.content(c.length(c.chance(1, 6) ? maxlen : 60, 16)), ct = sc.run(in, false, fill), t = sa.tag((uint32_t)i, ct, tl), raw(ct); CHECK(ct.size() == in.size(), "ciphertext size"); raw.insert(raw.end(), t.begin(), t.end()); Bytes wire = enc_hex(raw); c.say("%zu", in.size());
    int attacks = c.chance(1, 2) ? (int)c.range(1, 3) : 0;
    for (int a = 0; a < attacks; a++) {
      Bytes w = wire, r = raw; const char *what = "";
      switch (c.below(10)) {
        case 0: { size_t bit = c.below(r.size() * 8); r[bit / 8] ^= (uint8_t)(1u << (bit & 7)); w = enc_hex(r); what = "bit flipped"; break; }
        case 1: w.resize(c.below(w.size())); what = "text truncated"; break;
        case 2: r.resize(c.below(r.size())); w = enc_hex(r); what = "bytes truncated"; break;
        case 3: { int k = (int)c.range(1, 70); r.insert(r.begin() + (long)c.below(r.size() + 1), (size_t)k, c.byte()); w = enc_hex(r); what = "bytes inserted"; break; }
        case 4: if (wires.empty()) continue; w = wires[c.below(wires.size())]; what = "earlier packet replayed"; break;
        case 5: { r = c.content(c.length(80, 16) + 1); w = enc_hex(r); what = "forged"; break; }
        case 6: { bool any = false; for (auto &ch : w) if (ch >= 'A' && ch <= 'F' && c.chance(1, 2)) { ch = (uint8_t)(ch - 'A' + 'a'); any = true; } if (!any) continue; what = "lower-case digits"; break; }
        case 7: { Bytes x = ct; Auth forger(c, bad_key); if (bad_key == mk) continue; Bytes ft = forger.tag((uint32_t)i, x, tl); x.insert(x.end(), ft.begin(), ft.end()); w = enc_hex(x); what = "tagged with another key"; break; }
        case 8: { size_t at = c.below(w.size()); static const char junk[] = " gG/:@`xZ\x01\x7f"; w[at] = (uint8_t)junk[c.below(11)]; what = "not a digit"; break; }
        case 9: { size_t at = c.below(t.size()); if (t[at] == 0) continue; r[ct.size() + at] = 0; for (size_t j = at; j < t.size(); j++) r[ct.size() + j] = 0; w = enc_hex(r); what = "tag cut off with zeros"; break; }
      }
      if (w == wire) continue;
      if (rightly_tagged(mk, w, (uint32_t)i, tl)) continue;       // a guided fuzzer can read the right tag off the library's own comparison
      c.say("(%s)", what); c.cls(what); Bytes p; rejected++; CHECK(!receive(w, (uint32_t)i, p), "packet %d (%zu bytes, tag %d) was accepted although: %s", i + 1, in.size(), tl, what);
    }
    Bytes p; CHECK(receive(wire, (uint32_t)i, p), "authentic packet %d (%zu bytes, tag %d) was rejected", i + 1, in.size(), tl); char s[80]; snprintf(s, sizeof s, "packet %d (%zu bytes)", i + 1, in.size()); pbt::eq_bytes(s, p, in); delivered++; wires.push_back(wire); c.digest(wire.data(), wire.size());
  }
  c.nontrivial(delivered > 1 && rejected > 0); if (rejected) c.cls("forgeries rejected");
}
PROPERTY(session, 6) { channel(c, (int)c.range(2, 12), 600); }
PROPERTY(long_session, 0) { channel(c, 150, 5000); }
// past 2^16 packets in one session
PROPERTY(many_calls, 0) { Bytes b(40000000); pbt::expand(c.word(5), b.data(), b.size()); Choices x(b.data(), b.size()); c.nontrivial(); c.cls("many packets"); channel(x, (int)c.range(66000, 70000), 60); }
