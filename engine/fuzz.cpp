// libFuzzer entry: same decoder, bytes chosen by coverage feedback.
#include "pbt.h"
#include <cstdlib>
using namespace pbt;
extern "C" const char *__asan_default_options() { return "detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=16"; }
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n) {
  static std::vector<Prop> fz;
  if (fz.empty()) for (auto &p : props()) if (p.weight) fz.push_back(p);
  if (!n) return 0;
  Choices c(d + 1, n - 1); bool bad = false;
  pbt::default_off = 4 * (c.byte() & 3);
  try { fz[d[0] % fz.size()].fn(c); }
  catch (Fail &f) { fprintf(stderr, "PROPERTY FAILS: %s\n", f.msg.c_str()); bad = true; }
  catch (Known &) {}
  if (end_of_case) end_of_case();
  if (bad) abort();
  return 0;
}
