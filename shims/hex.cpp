#include <cstdint>
#include "encoder.h"
#include "api.h"
extern "C" const HexApi MOD = {[](char *o, const u8_ *i, int n) { hex_encode(o, i, n); }, [](u8_ *o, const char *i, int n) { hex_decode(o, i, n); }};
