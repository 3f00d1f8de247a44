#include <cstdint>
#include "sosemanuk.h"
#include "api.h"
#define S ((sosemanuk_state *)s)
extern "C" const SosemanukApi MOD = {STATE(sosemanuk_state), [](void *s, u8_ *k, int n) { sosemanuk_load_key(S, k, n); }, [](void *s, u8_ *v) { sosemanuk_load_iv(S, v); }, [](void *s, u8_ *o, u8_ *i, u64_ n) { sosemanuk_process_packet(S, o, i, n); }};
