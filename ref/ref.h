// Independent reference models, written from the published specifications.
// Nothing here is derived from /repo.  Everything works on bytes, with the
// word order the specification defines, so it is the same on every host.
#pragma once
#include <cstddef>
#include <cstdint>
#include <vector>
namespace ref {
typedef std::vector<uint8_t> Bytes;

// --- AES-128 (FIPS 197); skip_after_whitening>0 drops that many middle rounds
struct Aes { uint8_t rk[11][16]; uint32_t rkw[11][4]; };
void aes_key(Aes &, const uint8_t key[16]);
// rounds: the 1-based indices of the round keys used by the inner rounds run from `first_inner` to 9, then 10.
void aes_enc(const Aes &, const uint8_t in[16], uint8_t out[16], int first_inner = 1);
void aes_round(const uint8_t in[16], const uint8_t rk[16], uint8_t out[16]); // SubBytes, ShiftRows, MixColumns, AddRoundKey
Bytes aes_ctr_block_stream(const uint8_t key[16], const uint8_t nonce[12], uint32_t first_counter, size_t nbytes, int first_inner = 1);

// --- AEGIS-128 (CAESAR v1.1)
void aegis128_encrypt(const uint8_t key[16], const uint8_t iv[16], const Bytes &ad, const Bytes &pt, Bytes &ct, uint8_t tag[16]);
void aegis128_encrypt_p(const uint8_t key[16], const uint8_t iv[16], const uint8_t *ad, size_t adlen, const uint8_t *pt, size_t n, uint8_t *ct, uint8_t tag[16]);

// the plaintext and the only tag with which this packet is authentic
void aegis128_decrypt_p(const uint8_t key[16], const uint8_t iv[16], const uint8_t *ad, size_t adlen, const uint8_t *ct, size_t n, uint8_t *pt, uint8_t tag[16]);
void aegis128_decrypt(const uint8_t key[16], const uint8_t iv[16], const Bytes &ad, const Bytes &ct, Bytes &pt, uint8_t tag[16]);

// --- ChaCha (RFC 8439, and reduced rounds)
void chacha_block(const uint8_t key[32], const uint8_t nonce[12], uint32_t counter, int rounds, uint8_t out[64]);
Bytes chacha_stream(const uint8_t key[32], const uint8_t nonce[12], uint32_t counter, int rounds, size_t n);

// --- HC-128 (eSTREAM)
struct Hc128 { uint32_t P[512], Q[512]; uint32_t i; };
void hc128_init(Hc128 &, const uint8_t key[16], const uint8_t iv[16]);
uint32_t hc128_word(Hc128 &);
Bytes hc128_stream(const uint8_t key[16], const uint8_t iv[16], size_t n);

// --- Rabbit (RFC 4503); key, iv and output in the RFC's I2OSP order
struct Rabbit { uint32_t X[8], C[8]; uint32_t b; };
void rabbit_key(Rabbit &, const uint8_t key[16]);
void rabbit_iv(Rabbit &, const uint8_t iv[8]);
void rabbit_block(Rabbit &, uint8_t out[16]);

// --- Serpent (bitsliced order of words, 4-bit S-boxes applied per column)
void serpent_keys(const uint8_t *key, size_t n, uint32_t rk[100]);           // 25 round keys K0..K24
void serpent24_rounds(const uint32_t rk[100], const uint32_t in[4], uint32_t r12[4], uint32_t r18[4], uint32_t r24[4]);
void serpent_full(const uint8_t *key, size_t n, const uint32_t in[4], uint32_t out[4]); // 32 rounds: used to validate this model
void serpent_sbox(int b, uint32_t w[4]);

// --- Sosemanuk (eSTREAM)
struct Sosemanuk { uint32_t s[10], r1, r2; };
void sosemanuk_init(Sosemanuk &, const uint8_t *key, size_t n, const uint8_t iv[16]);
void sosemanuk_block(Sosemanuk &, uint8_t out[16]);

// --- hashes
struct Sha256 { uint32_t h[8]; uint64_t len; uint8_t buf[64]; };
void sha256_init(Sha256 &);
void sha256_update(Sha256 &, const uint8_t *, size_t);
void sha256_final(Sha256 &, uint8_t out[32]);
void sha256(const uint8_t *, size_t, uint8_t out[32]);
void hmac_sha256(const uint8_t *key, size_t kn, const uint8_t *m, size_t n, uint8_t out[32]);
struct Md5 { uint32_t h[4]; uint64_t len; uint8_t buf[64]; };
void md5_init(Md5 &);
void md5_update(Md5 &, const uint8_t *, size_t);
void md5_final(Md5 &, uint8_t out[16]);
void md5(const uint8_t *, size_t, uint8_t out[16]);

// --- DES (FIPS 46-3)
struct Des { uint64_t k[16]; };
void des_key(Des &, const uint8_t key[8]);
void des_block(const Des &, const uint8_t in[8], uint8_t out[8], bool decrypt);
}
