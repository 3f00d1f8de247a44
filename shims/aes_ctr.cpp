#include <cstdint>
#include <cstring>
#include "aes_ctr.h"
#include "api.h"
#define S ((aes_state *)s)
extern "C" const AesCtrApi MOD = {STATE(aes_state), [](void *s, u8_ *k) { aes_load_key(S, k); }, [](void *s, u8_ *n) { aes_load_iv(S, n); }, [](void *s, u8_ *o, u8_ *i, int n) { aes_ctr_process_packet(S, o, i, n); }};
