#include <cstdint>
#include "des.h"
#include "api.h"
#define S ((des_state *)s)
// des_ecb_block is internal: without it single blocks go through the packet function
template <class C, class P> static auto block(C s, P o, P i, int) -> decltype(des_ecb_block(s, o, i), void()) { des_ecb_block(s, o, i); }
template <class C, class P> static void block(C s, P o, P i, long) { des_process_packet_ecb(s, o, i, 8); }
extern "C" const DesApi MOD = {STATE(des_state), [](void *s, u8_ *k) { des_key_schedule_encrypt(S, k); }, [](void *s, u8_ *k) { des_key_schedule_decrypt(S, k); }, [](void *s, u32_ *o, u32_ *i) { block(S, o, i, 0); }, [](void *s, u32_ *o, u32_ *i, u64_ n) { des_process_packet_ecb(S, o, i, n); }, [](void *s, u32_ *o, u32_ *i, u32_ *v, u64_ n) { des_process_packet_ctr(S, o, i, v, n); }};
