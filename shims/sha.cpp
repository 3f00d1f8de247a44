#include <cstdint>
#include "sha-256.h"
#include "api.h"
extern "C" const ShaApi MOD = {[](u8_ *d, u8_ *m, u64_ n) { sha256_process_message(d, m, n); }};
