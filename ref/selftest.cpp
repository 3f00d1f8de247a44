// Known-answer self-test of the reference models (official vectors).  Exit 0 iff all match.
#include "ref.h"
#include <cstdio>
#include <cstring>
#include <string>
using namespace ref;
static Bytes H(const char *s) { Bytes b; unsigned v; std::string t; for (; *s; s++) if (*s != ' ') t += *s; for (size_t i = 0; i + 1 < t.size(); i += 2) { sscanf(t.c_str() + i, "%2x", &v); b.push_back((uint8_t)v); } return b; }
static std::string X(const uint8_t *p, size_t n) { std::string s; char c[3]; for (size_t i = 0; i < n; i++) { snprintf(c, 3, "%02x", p[i]); s += c; } return s; }
static int bad = 0;
static void eq(const char *w, const uint8_t *p, const char *h) { Bytes e = H(h); if (memcmp(p, e.data(), e.size())) { bad++; printf("MISMATCH %s\n got  %s\n want %s\n", w, X(p, e.size()).c_str(), X(e.data(), e.size()).c_str()); } }
int main() {
  uint8_t o[128];
  { Aes a; aes_key(a, H("000102030405060708090a0b0c0d0e0f").data()); aes_enc(a, H("00112233445566778899aabbccddeeff").data(), o); eq("FIPS197 C.1", o, "69c4e0d86a7b0430d8cdb78070b4c55a"); }
  { Bytes k = aes_ctr_block_stream(H("AE6852F8121067CC4BF7A5765577F39E").data(), H("00000030 0000000000000000").data(), 1, 16); eq("RFC3686 1 ks", k.data(), "B7603328DBC2931B410E16C8067E62DF"); }
  { Bytes ct; aegis128_encrypt(H("00000000000000000000000000000000").data(), H("00000000000000000000000000000000").data(), Bytes(), Bytes(16, 0), ct, o); eq("AEGIS128 v1 ct", ct.data(), "951b050fa72b1a2fc16d2e1f01b07d7e"); eq("AEGIS128 v1 tag", o, "a7d2a99773249542f422217ee888d5f1"); }
  for (size_t n = 0; n < 70; n++) { Bytes k(16, (uint8_t)n), v(16, (uint8_t)(3 * n)), ad(69 - n, 5), pt(n, (uint8_t)(n + 1)), ct, back; uint8_t t1[16], t2[16]; aegis128_encrypt(k.data(), v.data(), ad, pt, ct, t1); aegis128_decrypt(k.data(), v.data(), ad, ct, back, t2); if (back != pt || memcmp(t1, t2, 16)) { bad++; printf("MISMATCH AEGIS128 decryption of %zu bytes\n", n); } }
  { Bytes k(32); for (int i = 0; i < 32; i++) k[i] = (uint8_t)i; chacha_block(k.data(), H("000000090000004a00000000").data(), 1, 20, o); eq("RFC8439 2.3.2", o, "10f1e7e4d13b5915500fdd1fa32071c4c7d1f4c733c068030422aa9ac3d46c4ed2826446079faa0914c2d705d98b02a2b5129cd1de164eb9cbd083e8a2503c4e"); }
  { Bytes z(16, 0), k = hc128_stream(z.data(), z.data(), 64); eq("HC-128 zero", k.data(), "82001573A003FD3B7FD72FFB0EAF63AAC62F12DEB629DCA72785A66268EC758B1EDB36900560898178E0AD009ABF1F491330DC1C246E3D6CB264F6900271D59C"); }
  { Rabbit r; rabbit_key(r, Bytes(16, 0).data()); for (int i = 0; i < 3; i++) rabbit_block(r, o + 16 * i); eq("RFC4503 A.1 zero", o, "B15754F036A5D6ECF56B45261C4AF702 88E8D815C59C0C397B696C4789C68AA7 F416A1C3700CD451DA68D1881673D696"); }
  { Rabbit r; rabbit_key(r, Bytes(16, 0).data()); rabbit_iv(r, H("C373F575C1267E59").data()); rabbit_block(r, o); eq("RFC4503 A.2", o, "1FCD4EB9580012E2E0DCCC9222017D6D"); }
  { Sosemanuk s; Bytes k = H("A7C083FEB7"); sosemanuk_init(s, k.data(), k.size(), H("00112233445566778899AABBCCDDEEFF").data()); for (int i = 0; i < 5; i++) sosemanuk_block(s, o + 16 * i); eq("Sosemanuk", o, "FE81D2162C9A100D04895C454A77515BBE6A431A935CB90E2221EBB7EF502328943539492EFF6310C871054C2889CC728F82E86B1AFFF4334B6127A13A155C75151630BD482EB673FF5DB477FA6C53EB"); }
  { uint32_t in[4] = {0, 0, 0, 0}, out[4]; uint8_t k[16] = {0x80}; serpent_full(k, 16, in, out); for (int i = 0; i < 16; i++) o[i] = (uint8_t)(out[i / 4] >> (8 * (i & 3))); eq("Serpent-128 ecb v0", o, "264e5481eff42a4606abda06c0bfda3d"); }
  sha256((const uint8_t *)"abc", 3, o); eq("SHA-256 abc", o, "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad");
  sha256((const uint8_t *)"", 0, o); eq("SHA-256 empty", o, "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855");
  hmac_sha256((const uint8_t *)"Jefe", 4, (const uint8_t *)"what do ya want for nothing?", 28, o); eq("RFC4231 2", o, "5bdcc146bf60754e6a042426089575c75a003f089d2739839dec58b964ec3843");
  { Bytes k(131, 0xaa); const char *m = "Test Using Larger Than Block-Size Key - Hash Key First"; hmac_sha256(k.data(), 131, (const uint8_t *)m, strlen(m), o); eq("RFC4231 6", o, "60e431591ee0b67f0d8a26aacbf5b77f8e0bc6213728c5140546040f0ee37f54"); }
  md5((const uint8_t *)"message digest", 14, o); eq("MD5", o, "f96b697d7cb7938d525a2f31aaf161d0");
  md5((const uint8_t *)"", 0, o); eq("MD5 empty", o, "d41d8cd98f00b204e9800998ecf8427e");
  { Des d; des_key(d, H("133457799BBCDFF1").data()); des_block(d, H("0123456789ABCDEF").data(), o, false); eq("DES", o, "85E813540F0AB405"); des_block(d, H("85E813540F0AB405").data(), o, true); eq("DES dec", o, "0123456789ABCDEF"); }
  if (!bad) printf("reference self-test: all vectors match\n");
  return bad ? 1 : 0;
}
