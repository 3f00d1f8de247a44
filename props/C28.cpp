// Independence of contexts: interleaving, copies, threads.
#include "programs.h"
#include <atomic>
#include <thread>
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
extern "C" const char *__tsan_default_options() { return "exitcode=96:halt_on_error=1:report_signal_unsafe=0:atexit_sleep_ms=0"; }
#endif
#endif
static void fresh(Choices &c, std::vector<std::unique_ptr<Session>> &v, int n) { std::vector<Maker> mk = makers(); size_t fam = c.below(mk.size()); bool one = c.chance(1, 3); for (int i = 0; i < n; i++) v.emplace_back(mk[one ? fam : c.below(mk.size())](c)); if (one) c.cls("same algorithm"); }
// each session is compared with its own model, so any influence shows as a wrong output
PROPERTY(interleaved, 6) { std::vector<std::unique_ptr<Session>> v; int n = (int)c.range(2, 5), steps = (int)c.range(3, 25); fresh(c, v, n); c.nontrivial(); c.cls("interleaved contexts"); for (int i = 0; i < steps; i++) { size_t k = c.below(v.size()); c.say("[%s]", v[k]->name()); v[k]->step(c, 180); } }
// a copy continues like the original, then both live on separately
PROPERTY(copied, 5) {
  std::vector<Maker> mk = makers(); std::unique_ptr<Session> a(mk[c.below(mk.size())](c)); int pre = (int)c.range(0, 5); for (int i = 0; i < pre; i++) a->step(c, 150); c.say("copy"); std::unique_ptr<Session> b(a->clone()); c.nontrivial(); c.cls("copied context"); c.cls(a->name());
  // the same operations on both
  Bytes ops(400); c.raw(ops.data(), (size_t)c.range(20, 400)); int n = (int)c.range(1, 4); { Choices x(ops.data(), ops.size()), y(ops.data(), ops.size()); for (int i = 0; i < n; i++) { a->step(x, 120); b->step(y, 120); } CHECK(x.out_digest == y.out_digest, "%s: the copy continues differently", a->name()); }
  // and different ones
  int m = (int)c.range(1, 8); for (int i = 0; i < m; i++) (c.chance(1, 2) ? a : b)->step(c, 150);
  if (c.chance(1, 2)) { a.reset(); c.say("original destroyed"); c.cls("original destroyed"); b->step(c, 150); }
}
// contexts on several threads at once; each thread's operations are fixed beforehand
static void threads(Choices &c, int nt, int steps, size_t maxlen) {
  std::vector<std::unique_ptr<Session>> v; fresh(c, v, nt); std::vector<Bytes> ops((size_t)nt); for (auto &o : ops) { o.resize(2000); pbt::expand(c.word(4), o.data(), o.size()); } std::vector<std::string> err((size_t)nt); c.nontrivial(); c.cls("threads"); for (auto &s : v) c.say("%s", s->name());
  std::vector<std::thread> t; volatile int go = 0;
  for (int i = 0; i < nt; i++) t.emplace_back([&, i] { try { Choices x(ops[(size_t)i].data(), ops[(size_t)i].size()); for (int k = 0; k < steps; k++) v[(size_t)i]->step(x, maxlen); } catch (pbt::Fail &f) { err[(size_t)i] = f.msg; } });
  (void)go; for (auto &x : t) x.join(); for (int i = 0; i < nt; i++) CHECK(err[(size_t)i].empty(), "thread %d of %d: %s", i, nt, err[(size_t)i].c_str());
}
PROPERTY(threads, 2) { for (int r = 0; r < 3; r++) threads(c, (int)c.range(2, 4), (int)c.range(2, 8), 300); }
PROPERTY(threads_race, 0) { threads(c, 3, 5, 200); }
PROPERTY(threads_long, 0) { threads(c, 4, 120, 3000); }
// the very first uses of an algorithm in a process, on several threads: a fresh process each time
#include <sys/wait.h>
PROPERTY(first_use, 0) {
  std::vector<Maker> mk = makers(); size_t fam = c.below(mk.size()); int nt = (int)c.range(2, 4), steps = (int)c.range(1, 4); std::vector<Bytes> ops((size_t)nt); for (auto &o : ops) { o.resize(3000); pbt::expand(c.word(4), o.data(), o.size()); } c.nontrivial(); c.cls("first use on threads");
  int fd[2]; if (pipe(fd)) _Exit(70); pid_t pid = fork(); if (pid < 0) _Exit(70);
  if (!pid) {
    close(fd[0]); std::vector<std::thread> t; std::vector<std::string> err((size_t)nt), names((size_t)nt); std::atomic<int> ready{0};
    for (int i = 0; i < nt; i++) t.emplace_back([&, i] { ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < nt) std::this_thread::yield(); try { Choices x(ops[(size_t)i].data(), ops[(size_t)i].size()); std::unique_ptr<Session> s(mk[fam](x)); names[(size_t)i] = s->name(); for (int k = 0; k < steps; k++) s->step(x, 150); } catch (pbt::Fail &f) { err[(size_t)i] = f.msg; } });
    for (auto &x : t) x.join(); for (auto &e : err) if (!e.empty()) { if (write(fd[1], e.data(), e.size()) < 0) _Exit(70); _exit(7); } _exit(0);
  }
  close(fd[1]); std::string msg; char buf[400]; ssize_t n; while ((n = read(fd[0], buf, sizeof buf)) > 0) msg.append(buf, (size_t)n); close(fd[0]); int st = 0; waitpid(pid, &st, 0); c.say("%d threads, algorithm %zu", nt, fam);
  CHECK(st == 0, "first use on %d threads at once (algorithm %zu): %s", nt, fam, !msg.empty() ? msg.c_str() : WIFEXITED(st) && WEXITSTATUS(st) == 96 ? "data race (ThreadSanitizer)" : "the process died");
}
// many contexts alive at once
PROPERTY(crowd, 0) {
  std::vector<Maker> mk = makers(); size_t fam = c.below(mk.size()); bool one = c.chance(2, 3); int n = (int)c.range(100, 700); uint64_t seed = c.word(5); std::vector<std::unique_ptr<Session>> v; c.nontrivial(); c.cls("hundreds of contexts"); c.say("%d contexts", n);
  for (int i = 0; i < 6 * n;) { Bytes e(8192); pbt::expand(seed++, e.data(), e.size()); Choices x(e.data(), e.size()); for (; i < 6 * n && x.used() + 1500 < e.size(); i++) { if ((int)v.size() < n && (v.size() < 2 || x.chance(1, 3))) { v.emplace_back(mk[one ? fam : x.below(mk.size())](x)); continue; } v[x.below(v.size())]->step(x, 100); } }
  for (auto &s : v) { uint8_t e[600]; pbt::expand(seed++, e, sizeof e); Choices x(e, sizeof e); s->step(x, 100); } if (one) c.cls(v[0]->name());
}
#ifdef HAVE_he
// users of the public-key functions, each with its own key, generator and masking context: together they get what each gets alone
static void users(Choices &c, int n, int most, int rounds) {        // rounds: how often each thread carries out its plan; 0: interleaved on one thread
  std::vector<std::unique_ptr<HePlan>> plans; c.nontrivial(); c.cls(rounds ? "public-key users on threads" : "interleaved public-key users"); unsigned hot[2] = {(unsigned)c.below(16), (unsigned)c.below(16)}; bool few = c.chance(1, 2); for (int i = 0; i < n; i++) plans.emplace_back(new HePlan(c, most, few ? hot : nullptr));
  typedef std::vector<std::string> Res; std::vector<std::vector<Res>> together((size_t)n);
  auto whole = [](const HePlan &p) { HeRun r(p); for (size_t j = 0; j < p.ops.size(); j++) r.step(); return r.results; };
  if (rounds) { std::vector<std::thread> t; for (int i = 0; i < n; i++) t.emplace_back([&, i] { for (int j = 0; j < rounds; j++) together[(size_t)i].push_back(whole(*plans[(size_t)i])); }); for (auto &x : t) x.join(); }
  else { std::vector<std::unique_ptr<HeRun>> r; for (auto &p : plans) r.emplace_back(new HeRun(*p)); bool any = true; while (any) { any = false; for (int i = 0; i < n; i++) { size_t w = c.chance(1, 2) ? (size_t)i : c.below((uint64_t)n); if (r[w]->at < plans[w]->ops.size()) r[w]->step(); any |= r[(size_t)i]->at < plans[(size_t)i]->ops.size(); } } for (int i = 0; i < n; i++) together[(size_t)i].push_back(r[(size_t)i]->results); }
  for (int i = 0; i < n; i++) { Res alone = whole(*plans[(size_t)i]); for (auto &g : together[(size_t)i]) for (size_t j = 0; j < alone.size(); j++) CHECK(g[j] == alone[j], "user %d of %d%s, operation %zu: %.60s, alone: %.60s", i + 1, n, rounds ? " (threads)" : "", j + 1, g[j].c_str(), alone[j].c_str()); }
}
PROPERTY(public_key, 2) { users(c, (int)c.range(2, 4), 10, 0); }
PROPERTY(public_key_threads, 0) { users(c, (int)c.range(2, 4), 30, 15); }
PROPERTY(public_key_race, 0) { users(c, 3, 12, 1); }
#endif
