// One C struct per primitive: the library's public functions behind pointers,
// so that several builds of one primitive (whose symbols clash) fit in one
// test program.  A shim is compiled once per build, against that build's
// header, and exports a single symbol MOD.
#pragma once
#include <cstddef>
#include <cstdint>
// size and alignment of a context
struct StateInfo { size_t n, align; operator size_t() const { return n; } };
#define STATE(T) {sizeof(T), alignof(T)}
typedef uint8_t u8_; typedef uint32_t u32_; typedef uint64_t u64_;
struct AesCtrApi { StateInfo state; void (*load_key)(void *, u8_ *); void (*load_iv)(void *, u8_ *); void (*packet)(void *, u8_ *out, u8_ *in, int n); };
struct AesCfbApi { StateInfo state; void (*init)(void *, u8_ *key, u8_ *iv); void (*packet)(void *, u8_ *out, u8_ *in, int n, int mode); };
struct AegisApi { StateInfo state; void (*load_key)(void *, u8_ *); void (*enc)(void *, u8_ *ct, u8_ *tag, u8_ *pt, u8_ *ad, u8_ *iv, u64_ adlen, u64_ n); int (*dec)(void *, u8_ *pt, u8_ *ct, u8_ *ad, u8_ *iv, u8_ *tag, u64_ adlen, u64_ n); };
struct ChachaApi { StateInfo state; void (*init)(void *, u8_ *key, u8_ *nonce); void (*block)(void *, u32_ ctr, u32_ *ks); void (*packet)(void *, u8_ *out, u8_ *in, u64_ n); void (*quarter)(u32_ *in, u32_ *out); void (*byte_swap)(u8_ *out, u8_ *in, int n); };
struct Hc128Api { StateInfo state; void (*init)(void *, u8_ *key, u8_ *iv); void (*packet)(void *, u8_ *out, u8_ *in, u64_ n); };
struct RabbitApi { StateInfo state; void (*load_key)(void *, u8_ *); void (*load_iv)(void *, u8_ *); void (*packet)(void *, u8_ *out, u8_ *in, u64_ n); };
struct SosemanukApi { StateInfo state; void (*load_key)(void *, u8_ *, int n); void (*load_iv)(void *, u8_ *); void (*packet)(void *, u8_ *out, u8_ *in, u64_ n); };
struct SerpentApi { StateInfo state; void (*key)(void *, u8_ *, int n); void (*packet)(void *, u32_ *out, u32_ *in, u64_ n); void (*sbox1)(u32_ *, u32_ *, u32_ *, u32_ *); };
struct ShaApi { void (*digest)(u8_ *digest, u8_ *msg, u64_ n); };
struct HmacApi { StateInfo state; void (*load_key)(void *, u8_ *, int n); void (*gen)(void *, u8_ *tag, u8_ *msg, u64_ n, int taglen); int (*val)(void *, u8_ *tag, u8_ *msg, u64_ n, int taglen); void (*digest)(u8_ *, u8_ *, u64_); };
struct Md5Api { StateInfo state; void (*init)(void *); void (*update)(void *, u8_ *, u32_ n); void (*final)(u8_ *digest, void *); void (*packet)(void *, u8_ *digest, u8_ *msg, u32_ n); };
struct DesApi { StateInfo state; void (*enc_key)(void *, u8_ *); void (*dec_key)(void *, u8_ *); void (*block)(void *, u32_ *out, u32_ *in); void (*ecb)(void *, u32_ *out, u32_ *in, u64_ n); void (*ctr)(void *, u32_ *out, u32_ *in, u32_ *nonce, u64_ n); };
struct HexApi { void (*enc)(char *, const u8_ *, int n); void (*dec)(u8_ *, const char *, int n); };
