// Hex: canonical encoding, exact decoding.
#include "sessions.h"
static size_t off(Choices &c) { return c.chance(1, 3) ? c.below(8) : 0; }
PROPERTY(bytes, 6) {
  HexSession s(c, hex_builds()[0]); Bytes in = c.content(c.length(4000, 16)); c.say("%zu bytes", in.size()); c.nontrivial(!in.empty()); c.cls(in.empty() ? "empty" : in.size() < 16 ? "short" : "longer");
  Bytes t = s.enc(in, off(c), off(c)); s.dec_check(in, off(c), off(c)); c.digest(t.data(), t.size()); pbt::eq_bytes("decode of the encoding", s.dec(t), in);
}
// any even number of digits, digit by digit
PROPERTY(digits, 4) {
  HexSession s(c, hex_builds()[0]); size_t n = c.below(40) * 2; Bytes txt, want; static const char d[] = "0123456789ABCDEF"; for (size_t i = 0; i < n; i++) { size_t v = c.below(16); txt.push_back((uint8_t)d[v]); if (i & 1) want.back() |= (uint8_t)v; else want.push_back((uint8_t)(v << 4)); } c.nontrivial(n > 0); c.cls("generated digits"); c.say("%.*s", (int)n, (const char *)txt.data()); pbt::eq_bytes("decoded digits", s.dec(txt, off(c), off(c)), want); Bytes back = s.enc(want); CHECK(back == txt, "encoding the decoded digits gives other digits");
}
PROPERTY(all_values, 1) { HexSession s(c, hex_builds()[0]); Bytes in; int start = c.byte(), step = (int)c.range(0, 127) * 2 + 1; for (int i = 0; i < 256; i++) in.push_back((uint8_t)(start + step * i)); c.nontrivial(); c.cls("all 256 byte values"); c.say("all values from %d step %d", start, step); s.enc(in); s.dec_check(in); for (auto b : in) { Bytes one(1, b); s.enc(one); s.dec_check(one); } }
// the encoded text is longer than a signed 32-bit index can hold
PROPERTY(huge_message, 0) {
  const HexApi *a = hex_builds()[0].api; size_t n = ((size_t)1 << 30) + c.below(40); c.nontrivial(); c.cls("text of more than 2 GiB"); c.say("%zu bytes", n); uint8_t *in = (uint8_t *)calloc(n, 1); char *out = (char *)malloc(2 * n + 1); if (!in || !out) _Exit(70);
  for (size_t i = 0; i < 64; i++) in[n - 1 - i] = (uint8_t)(37 * i + 5); a->enc(out, in, (int)n); std::string bad; static const char d[] = "0123456789ABCDEF";
  for (size_t i = 0; i < 2 * n && bad.empty(); i += (i < 4096 || i + 8192 > 2 * n) ? 1 : 4001) { uint8_t b = in[i / 2]; if (out[i] != d[i & 1 ? b & 15 : b >> 4]) bad = "digit " + std::to_string(i) + " is wrong"; } if (bad.empty() && out[2 * n]) bad = "the text is not terminated";
  free(in); free(out); CHECK(bad.empty(), "encoding of %zu bytes: %s", n, bad.c_str());
}
PROPERTY(long_message, 0) { HexSession s(c, hex_builds()[0]); size_t n = c.chance(1, 3) ? c.near_power(21) : (size_t)c.range(0, 2) * 900000 + c.length(90000, 16); c.nontrivial(n > 16); c.cls("up to megabytes"); c.say("%zu bytes", n); Bytes in = c.content(n); s.enc(in); s.dec_check(in); }
// past 2^16 calls on one context
PROPERTY(many_calls, 0) { HexSession s(c, any_build(c, hex_builds())); many_calls(c, s, (int)c.range(66000, 72000)); }
