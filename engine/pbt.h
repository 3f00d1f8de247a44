// Choice-sequence property-based testing engine.
//
// A property is a function over a Choices object: every generated value is
// decoded from a byte string, so one decoder serves random generation (bytes
// from a seeded PRNG), coverage-guided generation (bytes from libFuzzer),
// shrinking (edit the bytes, run again) and replay (bytes from a file).
// An exhausted byte string yields zeros, and zero is always the simplest
// choice.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>

namespace pbt {
typedef std::vector<uint8_t> Bytes;

struct Fail { std::string msg; };       // the property does not hold on this case
struct Known { std::string id; };       // the case hits a listed known finding

inline uint64_t splitmix(uint64_t &s) { uint64_t z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }

class Choices {
 public:
  Choices(const uint8_t *p, size_t n) : src_(p), n_(n), gen_(false) {}          // replay
  Choices(uint64_t seed, uint8_t *rec, size_t cap, volatile uint32_t *reclen)    // generate, recording
      : gen_(true), rng_(seed), rec_(rec), cap_(cap), reclen_(reclen) {}
  uint8_t byte();
  void raw(void *p, size_t n) { uint8_t *b = (uint8_t *)p; for (size_t i = 0; i < n; i++) b[i] = byte(); }
  uint64_t word(int nbytes) { uint64_t v = 0; for (int i = 0; i < nbytes; i++) v |= (uint64_t)byte() << (8 * i); return v; }
  uint64_t below(uint64_t n);                                    // 0 .. n-1
  uint64_t range(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1); }
  bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }    // false is simplest
  size_t pick(const std::vector<unsigned> &weights);             // index, 0 is simplest
  // n bytes of content: patterned, expanded from a short seed, or literal choice bytes
  Bytes content(size_t n);
  // keys, nonces, IVs: mostly literal/random bytes, sometimes structured (zero, ones, one bit, repeated, ascending)
  Bytes keylike(size_t n);
  // a length in 0..max, biased to 0, tiny, and both sides of multiples of `unit` and of powers of two
  size_t length(size_t max, size_t unit);
  // a length just around a power of two, up to 2^maxbits + 70: where integer and floating-point types run out of bits
  size_t near_power(int maxbits);

  size_t used() const { return pos_; }
  bool exhausted() const { return !gen_ && pos_ > n_; }
  // bookkeeping
  void nontrivial(bool b = true) { nontriv_ = nontriv_ || b; }
  void cls(const char *name);                                    // count this case in a class (once)
  bool want_desc = false;
  std::string desc;
  void say(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  bool is_nontrivial() const { return nontriv_; }
  std::vector<const char *> classes;
  uint64_t seed_mix = 0x5851f42d4c957f2dull;                     // running hash of the decoded bytes
  void digest(const void *p, size_t n);                          // fold outputs into the case digest
  uint64_t out_digest = 0xcbf29ce484222325ull;
 private:
  const uint8_t *src_ = nullptr; size_t n_ = 0;
  bool gen_; uint64_t rng_ = 0, rbuf_ = 0; int rleft_ = 0;
  uint8_t *rec_ = nullptr; size_t cap_ = 0; volatile uint32_t *reclen_ = nullptr;
  size_t pos_ = 0; bool nontriv_ = false;
};

struct Prop { const char *name; unsigned weight; void (*fn)(Choices &); };
std::vector<Prop> &props();
struct Reg { Reg(const char *n, unsigned w, void (*f)(Choices &)) { props().push_back(Prop{n, w, f}); } };
#define PROPERTY(name, weight)                                   \
  static void prop_##name(pbt::Choices &c);                      \
  static pbt::Reg reg_##name(#name, weight, prop_##name);        \
  static void prop_##name(pbt::Choices &c)

[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define CHECK(cond, ...) do { if (!(cond)) pbt::fail(__VA_ARGS__); } while (0)
std::string hex(const void *p, size_t n, size_t max = 48);
inline std::string hex(const Bytes &b, size_t max = 48) { return hex(b.data(), b.size(), max); }
// fails with the first differing offset
void eq_bytes(const char *what, const uint8_t *got, const uint8_t *want, size_t n);
inline void eq_bytes(const char *what, const Bytes &g, const Bytes &w) {
  CHECK(g.size() == w.size(), "%s: length %zu, expected %zu", what, g.size(), w.size());
  eq_bytes(what, g.data(), w.data(), w.size());
}
// fills a large stretch of stack below the caller with a pattern, so a callee
// that reads an uninitialised local sees generated garbage
void paint_stack(uint64_t pattern);
void expand(uint64_t seed, uint8_t *p, size_t n);

// A heap block of exactly n bytes with guard bands on both sides (ASan sees
// the exact end as well); `check` fails if a band or (for inputs) the content
// changed.
// Buffers are placed at a multiple of four chosen for the case (default_off), or at align_off, after an aligned address.
static const size_t ANYWHERE = (size_t)-1;
extern size_t default_off;
// Instead of the heap: whole pages between two inaccessible ones, the buffer at their end (1) or start (2); buffers made from content are read-only.
extern int pages;
class Guarded {
 public:
  explicit Guarded(size_t n, uint8_t prefill = 0xA5, size_t align_off = ANYWHERE, size_t align = 16);
  Guarded(const Bytes &content, size_t align_off = ANYWHERE);           // input buffer: content must stay unchanged
  ~Guarded();
  Guarded(const Guarded &) = delete; Guarded &operator=(const Guarded &) = delete;
  uint8_t *p() { return p_; }
  size_t n() const { return n_; }
  void check(const char *what);
  void freeze() { copy_.assign(p_, p_ + n_); input_ = true; }
  Bytes bytes() const { return Bytes(p_, p_ + n_); }
 private:
  void alloc(size_t n, size_t off, size_t align = 16);
  uint8_t *base_ = nullptr, *p_ = nullptr; size_t n_ = 0, front_ = 0, back_ = 0; bool input_ = false; Bytes copy_; uint8_t *map_ = nullptr; size_t maplen_ = 0;
};
// Called at the end of every case (e.g. to release what the library leaked)
extern void (*end_of_case)();
extern bool guard_bands;     // true when no address sanitizer watches the ends
}
using pbt::Choices;
using pbt::Guarded;
using pbt::Bytes;
