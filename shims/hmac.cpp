#include <cstdint>
#include "hmac.h"
#include "sha-256.h"
#include "api.h"
#define S ((hmac_state *)s)
extern "C" const HmacApi MOD = {STATE(hmac_state), [](void *s, u8_ *k, int n) { hmac_load_key(S, k, n); }, [](void *s, u8_ *t, u8_ *m, u64_ n, int tl) { hmac_tag_generation(S, t, m, n, tl); }, [](void *s, u8_ *t, u8_ *m, u64_ n, int tl) { return hmac_tag_validation(S, t, m, n, tl); }, [](u8_ *d, u8_ *m, u64_ n) { sha256_process_message(d, m, n); }};
