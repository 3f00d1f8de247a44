#include <cstdint>
#include <cstring>
#include "aegis_128.h"
#include "api.h"
#define S ((aegis_state *)s)
extern "C" const AegisApi MOD = {STATE(aegis_state), [](void *s, u8_ *k) { aegis_load_key(S, k); }, [](void *s, u8_ *ct, u8_ *tag, u8_ *pt, u8_ *ad, u8_ *iv, u64_ a, u64_ n) { aegis_encrypt_packet(S, ct, tag, pt, ad, iv, a, n); }, [](void *s, u8_ *pt, u8_ *ct, u8_ *ad, u8_ *iv, u8_ *tag, u64_ a, u64_ n) { return aegis_decrypt_packet(S, pt, ct, ad, iv, tag, a, n); }};
