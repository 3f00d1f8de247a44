#include <cstdint>
#include "md5.h"
#include "api.h"
#define S ((MD5_CTX *)s)
extern "C" const Md5Api MOD = {STATE(MD5_CTX), [](void *s) { MD5Init(S); }, [](void *s, u8_ *m, u32_ n) { MD5Update(S, m, n); }, [](u8_ *d, void *s) { MD5Final(d, S); }, [](void *s, u8_ *d, u8_ *m, u32_ n) { MD5_process_packet(S, d, m, n); }};
