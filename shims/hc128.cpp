#include <cstdint>
#include "hc128.h"
#include "api.h"
#define S ((hc128_state *)s)
extern "C" const Hc128Api MOD = {STATE(hc128_state), [](void *s, u8_ *k, u8_ *n) { hc128_initialize(S, k, n); }, [](void *s, u8_ *o, u8_ *i, u64_ n) { hc128_process_packet(S, o, i, n); }};
