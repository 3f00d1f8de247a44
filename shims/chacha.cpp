#include <cstdint>
#include "chacha.h"
#include "api.h"
#define S ((chacha_state *)s)
extern "C" const ChachaApi MOD = {STATE(chacha_state), [](void *s, u8_ *k, u8_ *n) { chacha_initialize(S, k, n); }, [](void *s, u32_ c, u32_ *k) { chacha_block(S, c, k); }, [](void *s, u8_ *o, u8_ *i, u64_ n) { chacha_process_packet(S, o, i, n); }, [](u32_ *i, u32_ *o) { test_q(i, o); }, [](u8_ *o, u8_ *i, int n) { byte_swap(o, i, n); }};
