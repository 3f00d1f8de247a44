// AES-CFB: the carry-over register across packets, and self-synchronisation.
#include "sessions.h"
static bool reduced(const Build<AesCfbApi> &b) { for (auto &x : cfb6_builds()) if (x.api == b.api) return true; return false; }

static void channel(Choices &c, int n, size_t maxlen, bool lossy) {
  bool red = !cfb6_builds().empty() && c.chance(1, 8); const std::vector<Build<AesCfbApi>> &bs = red ? cfb6_builds() : cfb_builds();
  Build<AesCfbApi> sb = any_build(c, bs), rb = any_build(c, bs); CfbSession s(c, sb, red ? 5 : 1), r(c, rb, s.key, s.reg, red ? 5 : 1);
  if (sb.api != rb.api) c.cls("two builds"); if (red) c.cls("reduced rounds");
  size_t clean = 16; int delivered = 0, partial = 0, resync = 0; bool lost_sync = false;   // clean: unaltered ciphertext bytes received since the last damage
  for (int i = 0; i < n; i++) {
    Bytes in = c.content(c.length(c.chance(1, 8) ? maxlen : 40, 16)), ct = s.packet(in, false); c.say("%zu", in.size()); c.digest(ct.data(), ct.size()); partial += in.size() % 16 != 0;
    CHECK(ct.size() == in.size(), "ciphertext length");
    int ev = lossy && c.chance(1, 5) ? (int)c.range(1, 4) : 0; Bytes got = ct;
    if (got.empty() && ev != 1) ev = 0;
    switch (ev) {
      case 1: c.say("(lost)"); c.cls("packet lost"); if (!ct.empty()) { clean = 0; } continue;
      case 2: { size_t at = c.below(got.size()); got[at] ^= (uint8_t)c.range(1, 255); c.say("(altered at %zu)", at); c.cls("packet altered"); break; }
      case 3: { size_t keep = c.below(got.size()); got.resize(keep); c.say("(cut to %zu)", keep); c.cls("packet truncated"); break; }
      case 4: { Bytes junk = c.content(c.length(40, 16)); c.say("(forged %zu first)", junk.size()); c.cls("forged packet inserted"); if (!junk.empty()) { r.packet(junk, true); clean = 0; } break; }
    }
    Bytes pt = r.packet(got, true); delivered++;      // the model checks every received packet against the register
    bool synced = clean >= 16;
    if (got == ct && synced) { char t[100]; snprintf(t, sizeof t, "packet %d (%zu bytes) recovered by %s", i + 1, ct.size(), rb.name); pbt::eq_bytes(t, pt, in); if (lost_sync) { resync++; lost_sync = false; } }
    if (got == ct) clean += ct.size(); else { clean = 0; lost_sync = true; }
    if (clean < 16) lost_sync = true;
    if (ev == 2) { size_t at = 0; while (at < ct.size() && got[at] == ct[at]) at++; clean = ct.size() - 1 - at; }
  }
  c.nontrivial(delivered >= 2); if (partial) c.cls("partial blocks"); if (resync) c.cls("synchronisation recovered");
}
PROPERTY(in_order, 4) { channel(c, (int)c.range(2, 24), 700, false); }
PROPERTY(lossy, 4) { channel(c, (int)c.range(2, 30), 300, true); }
// every pair of (first packet, second packet) lengths in a small square, both directions
PROPERTY(pairs, 1) {
  bool red = !cfb6_builds().empty() && c.chance(1, 8); Build<AesCfbApi> b = any_build(c, red ? cfb6_builds() : cfb_builds()); size_t a = c.below(50); Bytes in = c.content(160); bool dec = c.chance(1, 2), dec2 = c.chance(1, 4) ? !dec : dec; Bytes key = c.keylike(16), iv = c.keylike(16);
  c.nontrivial(); c.cls("three packets, all second lengths"); c.say("%s first packet %zu", b.name, a);
  for (size_t n = 0; n <= 49; n++) { CfbSession s(c, b, key, iv, reduced(b) ? 5 : 1); s.packet(Bytes(in.begin(), in.begin() + (long)a), dec); s.packet(Bytes(in.begin() + 50, in.begin() + 50 + (long)n), dec2); s.packet(Bytes(in.begin() + 100, in.begin() + 133), dec); }
}
PROPERTY(long_session, 0) { channel(c, (int)c.range(200, 400), 2000, c.chance(1, 2)); }
// past 2^16 calls on one context
PROPERTY(many_calls, 0) { CfbSession s(c, any_build(c, cfb_builds())); many_calls(c, s, (int)c.range(66000, 72000)); }
