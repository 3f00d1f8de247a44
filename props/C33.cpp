// Memory over long sessions: a history of calls is run again and again; what the
// process holds on the heap afterwards must stop growing.  Every allocation of
// the process is counted (malloc and friends are interposed; in the statically
// linked ARM programs, operator new and delete).
#include "programs.h"
#include <atomic>
#include <cerrno>
#include <malloc.h>
#include <new>
static std::atomic<long> blocks{0}, octets{0};
#if defined(__aarch64__)
static void *take(size_t n) { size_t *p = (size_t *)malloc(n + 16); if (!p) _Exit(70); *p = n; blocks++; octets += (long)n; return p + 2; }
static void give(void *v) { if (!v) return; size_t *p = (size_t *)v - 2; blocks--; octets -= (long)*p; free(p); }
void *operator new(size_t n) { return take(n); } void *operator new[](size_t n) { return take(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return take(n); } void *operator new[](size_t n, const std::nothrow_t &) noexcept { return take(n); }
void operator delete(void *p) noexcept { give(p); } void operator delete[](void *p) noexcept { give(p); } void operator delete(void *p, size_t) noexcept { give(p); } void operator delete[](void *p, size_t) noexcept { give(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { give(p); } void operator delete[](void *p, const std::nothrow_t &) noexcept { give(p); }
#else
extern "C" {
void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t);
static void *in(void *p) { if (p) { blocks++; octets += (long)malloc_usable_size(p); } return p; }
static void out(void *p) { if (p) { blocks--; octets -= (long)malloc_usable_size(p); } }
void *malloc(size_t n) { return in(__libc_malloc(n)); }
void *calloc(size_t a, size_t b) { return in(__libc_calloc(a, b)); }
void free(void *p) { out(p); __libc_free(p); }
void *realloc(void *p, size_t n) { size_t old = p ? malloc_usable_size(p) : 0; void *q = __libc_realloc(p, n); if (q || !n) { if (p) { blocks--; octets -= (long)old; } in(q); } return q; }
void *memalign(size_t a, size_t n) { return in(__libc_memalign(a, n)); }
void *aligned_alloc(size_t a, size_t n) { return in(__libc_memalign(a, n)); }
int posix_memalign(void **p, size_t a, size_t n) { void *q = in(__libc_memalign(a, n)); if (!q) return ENOMEM; *p = q; return 0; }
}
#endif
// Still growing at every doubling of the number of runs, in blocks or in bytes, is growth without bound;
// a table or cache that is filled once, or pools of bounded size, are not.
static void bounded(const Program &p, int doublings, const char *what) {
  long b[12], o[12]; int runs = 0; for (int d = 0; d <= doublings; d++) { for (; runs < 4 << d; runs++) p(); b[d] = blocks; o[d] = octets; }
  bool gb = true, go = true; for (int d = 1; d <= doublings; d++) { gb &= b[d] > b[d - 1]; go &= o[d] > o[d - 1]; }
  CHECK(!gb && !go, "%s: memory grows with every repetition: %ld blocks (%ld bytes) more after %d runs than after %d", what, b[doublings] - b[0], o[doublings] - o[0], 4 << doublings, 4);
}
PROPERTY(sessions, 6) { Program p = session_program(c, 8, 300); c.nontrivial(); bounded(p, 3, "a session run again and again"); }
#ifdef HAVE_he
PROPERTY(public_key, 2) { Program p = he_program(c, 5); c.nontrivial(); bounded(p, 3, "public-key operations run again and again"); }
#endif
// one context that is never made anew
PROPERTY(one_context, 3) {
  std::vector<Maker> mk = makers(); size_t which = c.below(mk.size()); Bytes first(80); c.raw(first.data(), first.size()); Choices f(first.data(), first.size()); std::unique_ptr<Session> s(mk[which](f)); c.cls(s->name()); c.cls("one context"); c.nontrivial(); int n = (int)c.range(1, 5); Bytes ops((size_t)c.range(20, 300)); c.raw(ops.data(), ops.size()); c.say("%s: %d operations on one context", s->name(), n);
  bounded([&] { Choices x(ops.data(), ops.size()); for (int i = 0; i < n; i++) s->step(x, 300); }, 3, s->name());
}
PROPERTY(long_run, 0) { Program p = session_program(c, 4, c.chance(1, 4) ? 20000 : 300); c.nontrivial(); bounded(p, 7, "a session run again and again"); }
