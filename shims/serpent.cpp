#include <cstdint>
#include "serpent.h"
#include "api.h"
#define S ((serpent_state *)s)
// serpent1 is internal: without it the S-box property is skipped
template <class P> static auto sbox(P a, P b, P c, P d, int) -> decltype(serpent1(a, b, c, d), void()) { serpent1(a, b, c, d); }
template <class P> static auto has(int) -> decltype(serpent1(P(), P(), P(), P()), true) { return true; }
template <class P> static bool has(long) { return false; }
template <class P> static void sbox(P, P, P, P, long) {}
extern "C" const SerpentApi MOD = {STATE(serpent_state), [](void *s, u8_ *k, int n) { serpent_key_schedule(S, k, n); }, [](void *s, u32_ *o, u32_ *i, u64_ n) { serpent_process_packet(S, o, i, n); }, has<u32_ *>(0) ? [](u32_ *a, u32_ *b, u32_ *c, u32_ *d) { sbox(a, b, c, d, 0); } : (void (*)(u32_ *, u32_ *, u32_ *, u32_ *))nullptr};
