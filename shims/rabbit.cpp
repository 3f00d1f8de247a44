#include <cstdint>
#include "rabbit.h"
#include "api.h"
#define S ((rabbit_state *)s)
extern "C" const RabbitApi MOD = {STATE(rabbit_state), [](void *s, u8_ *k) { rabbit_load_key(S, k); }, [](void *s, u8_ *n) { rabbit_load_iv(S, n); }, [](void *s, u8_ *o, u8_ *i, u64_ n) { rabbit_process_packet(S, o, i, n); }};
