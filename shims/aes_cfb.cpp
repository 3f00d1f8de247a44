#include <cstdint>
#include <cstring>
#include "aes_cfb.h"
#include "api.h"
#define S ((aes_state *)s)
extern "C" const AesCfbApi MOD = {STATE(aes_state), [](void *s, u8_ *k, u8_ *n) { aes_cfb_initialize(S, k, n); }, [](void *s, u8_ *o, u8_ *i, int n, int m) { aes_cfb_process_packet(S, o, i, n, m); }};
