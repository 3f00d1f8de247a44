#include <sys/mman.h>
#include <unistd.h>
#include "pbt.h"
#include <cstdlib>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAS_ASAN 1
#endif
#endif
#ifdef __SANITIZE_ADDRESS__
#define HAS_ASAN 1
#endif
#ifdef HAS_ASAN
#include <sanitizer/asan_interface.h>
#endif
namespace pbt {
void (*end_of_case)() = nullptr;
#ifdef HAS_ASAN
bool guard_bands = false;
#else
bool guard_bands = true;
#endif
std::vector<Prop> &props() { static std::vector<Prop> v; return v; }
void fail(const char *fmt, ...) {
  char buf[2048]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  throw Fail{buf};
}
std::string hex(const void *p, size_t n, size_t max) {
  std::string s; char t[3]; const uint8_t *b = (const uint8_t *)p;
  for (size_t i = 0; i < n && i < max; i++) { snprintf(t, 3, "%02x", b[i]); s += t; }
  if (n > max) { char u[40]; snprintf(u, sizeof u, "..(%zu bytes)", n); s += u; }
  return s;
}
void eq_bytes(const char *what, const uint8_t *g, const uint8_t *w, size_t n) {
  if (!n || !memcmp(g, w, n)) return;
  size_t i = 0; while (g[i] == w[i]) i++;
  size_t k = n - i < 16 ? n - i : 16;
  fail("%s: byte %zu of %zu differs: got %s expected %s", what, i, n, hex(g + i, k).c_str(), hex(w + i, k).c_str());
}
uint8_t Choices::byte() {
  uint8_t b;
  if (gen_) {
    if (!rleft_) { rbuf_ = splitmix(rng_); rleft_ = 8; }
    b = (uint8_t)rbuf_; rbuf_ >>= 8; rleft_--;
    if (pos_ < cap_) { rec_[pos_] = b; *reclen_ = (uint32_t)(pos_ + 1); }
    else b = 0;                                   // beyond the record: same as replaying an exhausted string
  } else b = pos_ < n_ ? src_[pos_] : 0;
  pos_++;
  seed_mix = (seed_mix ^ b) * 0x100000001b3ull;
  return b;
}
uint64_t Choices::below(uint64_t n) {
  if (n <= 1) return 0;
  int k = n <= 256 ? 1 : n <= 65536 ? 2 : n <= (1ull << 32) ? 4 : 8;
  uint64_t w = word(k);
  if (n <= 256 && n > 64 && 256 % n) w |= (uint64_t)byte() << 8;   // keep the modulo bias small
  return w % n;
}
size_t Choices::pick(const std::vector<unsigned> &w) {
  uint64_t t = 0; for (unsigned x : w) t += x;
  uint64_t v = below(t);
  for (size_t i = 0; i < w.size(); i++) { if (v < w[i]) return i; v -= w[i]; }
  return 0;
}
void expand(uint64_t s, uint8_t *p, size_t n) {
  size_t i = 0;
  for (; i + 8 <= n; i += 8) { uint64_t v = splitmix(s); memcpy(p + i, &v, 8); }
  if (i < n) { uint64_t v = splitmix(s); memcpy(p + i, &v, n - i); }
}
Bytes Choices::content(size_t n) {
  Bytes b(n);
  if (!n) return b;
  size_t m = pick({2, 6, 3, 1, 1, 2});
  if (m == 2 && n > 96) m = 1;
  switch (m) {
    case 0: break;                                                        // zeros
    case 1: expand(word(4), b.data(), n); break;                          // pseudo-random from a 32-bit seed
    case 2: raw(b.data(), n); break;                                      // literal
    case 3: memset(b.data(), 0xff, n); break;
    case 4: memset(b.data(), byte(), n); break;                           // one repeated byte
    case 5: { int k = (int)range(1, 4); for (int i = 0; i < k; i++) { size_t at = below(n); b[at] = byte(); } break; }  // sparse
  }
  return b;
}
Bytes Choices::keylike(size_t n) {
  Bytes b(n);
  if (!n) return b;
  switch (pick({2, 16, 1, 1, 2, 1, 2})) {
    case 0: break;
    case 1: raw(b.data(), n); break;
    case 2: memset(b.data(), 0xff, n); break;
    case 3: { uint8_t s = byte(); for (size_t i = 0; i < n; i++) b[i] = (uint8_t)(s + i); break; }
    case 4: { uint64_t bit = below(n * 8); b[bit / 8] = (uint8_t)(1u << (bit & 7)); break; }
    case 5: memset(b.data(), byte(), n); break;
    case 6: { raw(b.data(), n); int k = (int)range(1, 4); for (int i = 0; i < k; i++) { static const uint8_t sp[] = {0, 0xff, 0x80, 0x7f, 1, 0xfe}; b[below(n)] = sp[below(6)]; } break; }
  }
  return b;
}
size_t Choices::length(size_t max, size_t unit) {
  size_t r = 0;
  switch (pick({6, 8, 6, 3, 6})) {
    case 0: r = below(unit + 1 < max ? unit + 1 : max + 1); break;                          // within one unit
    case 1: { size_t q = max / unit; r = below(q < 12 ? q + 1 : 12) * unit; int d = (int)below(5); r = d < 3 ? r + (size_t)d : (r >= (size_t)(d - 2) ? r - (size_t)(d - 2) : r); break; }  // around a multiple
    case 2: r = below(16 * unit); break;                                                     // anything short
    case 3: { int b = 0; while ((max >> b) > 1) b++; r = (size_t)1 << below((uint64_t)b + 1); int d = (int)below(5); r = d < 3 ? r + (size_t)d : r - 1; break; }
    case 4: r = below(max + 1); break;
  }
  return r > max ? max : r;
}
size_t Choices::near_power(int maxbits) {
  int b = maxbits;
  switch (pick({3, 3, 2, 4})) { case 0: b = 16; break; case 1: b = 24; break; case 2: b = maxbits; break; case 3: b = (int)range(8, maxbits); break; }
  size_t r = (size_t)1 << (b < maxbits ? b : maxbits);
  switch (pick({4, 1, 1, 2, 1, 1})) { case 0: r += 1; break; case 1: break; case 2: r -= 1; break; case 3: r += 1 + below(20); break; case 4: r += below(70); break; case 5: r -= below(70); break; }
  return r;
}
void Choices::cls(const char *name) { for (const char *p : classes) if (!strcmp(p, name)) return; classes.push_back(name); }
void Choices::say(const char *fmt, ...) {
  if (!want_desc || desc.size() > 4000) return;
  char buf[1024]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  if (!desc.empty()) desc += "; ";
  desc += buf;
}
void Choices::digest(const void *p, size_t n) {
  const uint8_t *b = (const uint8_t *)p; uint64_t h = out_digest;
  for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001b3ull;
  out_digest = h;
}
__attribute__((noinline))
#ifdef HAS_ASAN
__attribute__((no_sanitize("address")))
#endif
void paint_stack(uint64_t pattern) {
  volatile uint64_t a[3072];
  for (int i = 0; i < 3072; i++) a[i] = pattern * (uint64_t)(2 * i + 1) + (pattern >> 32);
  asm volatile("" : : "r"(a) : "memory");
}
static const size_t BAND = 64;
size_t default_off = 0;
int pages = 0;
void Guarded::alloc(size_t n, size_t off, size_t align) {
  if (pages) {
    const size_t P = (size_t)sysconf(_SC_PAGESIZE); n_ = n; front_ = back_ = 0; size_t body = (n + P - 1) / P * P; if (!body) body = P; maplen_ = body + 2 * P;
    map_ = (uint8_t *)mmap(nullptr, maplen_, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (map_ == MAP_FAILED) { fprintf(stderr, "harness: out of memory\n"); _Exit(70); }
    mprotect(map_, P, PROT_NONE); mprotect(map_ + P + body, P, PROT_NONE); p_ = pages == 1 ? map_ + P + body - n : map_ + P; return;
  }
  if (off == ANYWHERE) off = default_off;
  n_ = n; front_ = guard_bands ? BAND : 16; back_ = guard_bands ? BAND : 0; size_t size;
  if (align <= 16) { size = front_ + off + n + back_; base_ = (uint8_t *)malloc(size ? size : 1); }
  else { front_ = (front_ + align - 1) / align * align; size = front_ + off + n + back_; void *q = nullptr; if (posix_memalign(&q, align, size)) q = nullptr; base_ = (uint8_t *)q; }
  if (!base_) { fprintf(stderr, "harness: out of memory\n"); _Exit(70); }
  front_ += off;
  p_ = base_ + front_;
  for (size_t i = 0; i < front_; i++) base_[i] = (uint8_t)(0xC3 ^ i);
  for (size_t i = 0; i < back_; i++) p_[n_ + i] = (uint8_t)(0x3C ^ i);
#ifdef HAS_ASAN
  __asan_poison_memory_region(base_, front_ & ~(size_t)7);
#endif
}
Guarded::Guarded(size_t n, uint8_t prefill, size_t off, size_t align) { alloc(n, off, align); if (n) memset(p_, prefill, n); }
Guarded::Guarded(const Bytes &c, size_t off) { alloc(c.size(), off); if (n_) memcpy(p_, c.data(), n_); freeze(); if (map_) mprotect(map_, maplen_ - (size_t)sysconf(_SC_PAGESIZE), PROT_READ); if (map_) mprotect(map_, (size_t)sysconf(_SC_PAGESIZE), PROT_NONE); }
Guarded::~Guarded() {
  if (map_) { munmap(map_, maplen_); return; }
#ifdef HAS_ASAN
  __asan_unpoison_memory_region(base_, front_);
#endif
  free(base_);
}
void Guarded::check(const char *what) {
#ifdef HAS_ASAN
  for (size_t i = front_ & ~(size_t)7; i < front_; i++) CHECK(base_[i] == (uint8_t)(0xC3 ^ i), "%s: wrote %zu bytes before the start of a buffer of %zu bytes", what, front_ - i, n_);
#else
  for (size_t i = 0; i < front_; i++) CHECK(base_[i] == (uint8_t)(0xC3 ^ i), "%s: wrote %zu bytes before the start of a buffer of %zu bytes", what, front_ - i, n_);
  for (size_t i = 0; i < back_; i++) CHECK(p_[n_ + i] == (uint8_t)(0x3C ^ i), "%s: wrote at offset %zu of a buffer of %zu bytes", what, n_ + i, n_);
#endif
  if (input_ && n_ && memcmp(p_, copy_.data(), n_)) { size_t i = 0; while (p_[i] == copy_[i]) i++; fail("%s: input buffer modified at offset %zu of %zu", what, i, n_); }
}
}
