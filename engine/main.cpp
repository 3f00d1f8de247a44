// Driver: run / replay / shrink / corpus.   See pbt.h.
#include "pbt.h"
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <fcntl.h>
#include <set>
#include <map>
#include <algorithm>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
using namespace pbt;

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAS_ASAN 1
#endif
#endif
extern "C" const char *__asan_default_options() { return "exitcode=99:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0:abort_on_error=0:symbolize=0:quarantine_size_mb=16:max_malloc_fill_size=0"; }
extern "C" const char *__ubsan_default_options() { return "exitcode=98:print_stacktrace=0:halt_on_error=1"; }

static const size_t CAP = 1 << 16;          // recorded choice bytes per case
static const int NCLS = 160;
struct Shared {                             // one per worker
  volatile uint32_t len; volatile uint32_t state;          // state: 0 idle, 1 in case, 2 failed, 3 done
  uint8_t rec[CAP]; char msg[2048];
  volatile uint64_t evals, nontriv; volatile uint64_t known; char known_id[64];
  volatile uint64_t case_idx; volatile double beat;
  volatile uint32_t nhash; uint64_t hash[1 << 19];
  char cname[NCLS][40]; volatile uint64_t ccount[NCLS];
  volatile uint64_t propcount[64];
  volatile uint64_t digest;
  volatile uint32_t nsample; char sample[4][768];           // descriptions of the first non-trivial cases
};
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }
static unsigned cpu_limit = 120;            // CPU seconds one case may take before it counts as not terminating
static std::string only;

static void on_cpu(int) { _exit(97); }
static void arm(unsigned s) { itimerval v; memset(&v, 0, sizeof v); v.it_value.tv_sec = s; setitimer(ITIMER_PROF, &v, nullptr); }

static std::vector<unsigned> weights() {
  std::vector<unsigned> w;
  for (auto &p : props()) w.push_back(p.weight);
  return w;
}
static const Prop *find_prop(const std::string &n) { for (auto &p : props()) if (n == p.name) return &p; return nullptr; }

// runs one case; returns 0 ok, 1 failed (message in msg), 2 known finding
static int run_case(const Prop &p, Choices &c, std::string &msg) {
  int r = 0;
  pbt::default_off = 4 * (c.byte() & 3);
  try { p.fn(c); }
  catch (Fail &f) { msg = f.msg; r = 1; }
  catch (Known &k) { msg = k.id; r = 2; }
  catch (std::bad_alloc &) { msg = "std::bad_alloc escaped"; r = 1; }
  if (end_of_case) end_of_case();
  return r;
}
static void quiet(const char *err) {
  int n = open("/dev/null", O_WRONLY); dup2(n, 1);
  if (err) { int e = open(err, O_WRONLY | O_CREAT | O_TRUNC, 0600); if (e >= 0) { dup2(e, 2); close(e); } else dup2(n, 2); }
  else dup2(n, 2);
  close(n);
}
static std::string tail(const std::string &f) {
  FILE *h = fopen(f.c_str(), "r"); if (!h) return ""; std::string s; char b[4096]; size_t n;
  while ((n = fread(b, 1, sizeof b, h)) > 0 && s.size() < 20000) s.append(b, n);
  fclose(h); std::string o; size_t i = 0; int lines = 0;
  while (i < s.size() && lines < 6) { size_t e = s.find('\n', i); if (e == std::string::npos) e = s.size(); std::string l = s.substr(i, e - i); if (l.find("ERROR") != std::string::npos || l.find("runtime error") != std::string::npos || l.find("READ of") != std::string::npos || l.find("WRITE of") != std::string::npos || l.find("    #0") != std::string::npos || l.find("    #1") != std::string::npos) { o += l.substr(0, 220) + " | "; lines++; } i = e + 1; }
  return o;
}
static std::string status_text(int st) {
  char b[128];
  if (WIFSIGNALED(st)) snprintf(b, sizeof b, "crashed: signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
  else if (WEXITSTATUS(st) == 99) snprintf(b, sizeof b, "memory error (AddressSanitizer)");
  else if (WEXITSTATUS(st) == 98) snprintf(b, sizeof b, "undefined behaviour (UBSan)");
  else if (WEXITSTATUS(st) == 97) snprintf(b, sizeof b, "did not return within %u s of CPU time", cpu_limit);
  else snprintf(b, sizeof b, "exited with status %d", WEXITSTATUS(st));
  return b;
}
static bool harness_exit(int st) { return WIFEXITED(st) && (WEXITSTATUS(st) == 70 || WEXITSTATUS(st) == 71) ; }
static bool oom_kill(int st) { return WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL; }

// Runs a byte string in a child.  Returns 0 pass, 1 fail, 2 known finding, 3 inconclusive.
struct Result { int r; std::string msg, desc; size_t used; uint64_t digest; };
static std::string workdir = "/tmp";
static Result try_bytes(const Prop &p, const Bytes &b, bool desc = false) {
  Result R{0, "", "", 0, 0};
  int pf[2]; if (pipe(pf)) { perror("pipe"); exit(71); }
  std::string ef = workdir + "/stderr." + std::to_string(getpid());
  fflush(nullptr);
  pid_t k = fork();
  if (k < 0) { perror("fork"); exit(71); }
  if (!k) {
    close(pf[0]); quiet(ef.c_str());
    signal(SIGPROF, on_cpu); arm(cpu_limit);
    Choices c(b.data(), b.size()); c.want_desc = desc; std::string m;
    int r = run_case(p, c, m);
    std::string o = std::to_string(c.used()) + "\n" + std::to_string(c.out_digest) + "\n" + m + "\x01" + c.desc;
    size_t i = 0; while (i < o.size()) { ssize_t w = write(pf[1], o.data() + i, o.size() - i); if (w <= 0) break; i += (size_t)w; }
    _exit(r);
  }
  close(pf[1]); std::string s; char buf[4096]; ssize_t n;
  while ((n = read(pf[0], buf, sizeof buf)) > 0) s.append(buf, (size_t)n);
  close(pf[0]); int st; waitpid(k, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) <= 2 && !s.empty()) {
    size_t a = s.find('\n'), d = s.find('\n', a + 1), z = s.find('\x01');
    R.r = WEXITSTATUS(st); R.used = (size_t)atoll(s.c_str()); R.digest = strtoull(s.c_str() + a + 1, nullptr, 10);
    R.msg = s.substr(d + 1, z - d - 1); R.desc = s.substr(z + 1);
  } else if (harness_exit(st) || oom_kill(st)) { R.r = 3; R.msg = status_text(st); }
  else { R.r = 1; R.msg = status_text(st) + " " + tail(ef); R.used = b.size(); }
  unlink(ef.c_str());
  return R;
}
static Bytes shrink(const Prop &p, Bytes b, Result &best, double budget) {
  double t0 = now(); int tries = 0;
  auto ok = [&](const Bytes &x) {
    if (now() - t0 > budget) return false;
    tries++; Result r = try_bytes(p, x); if (r.r == 1) { best = r; return true; } return false;
  };
  if (best.used < b.size()) { Bytes x(b.begin(), b.begin() + (long)best.used); if (ok(x)) b = x; }
  bool progress = true;
  while (progress && now() - t0 < budget) {
    progress = false;
    for (size_t n = b.size(); n >= 1; n = n / 2) {                       // delete chunks, from the end
      for (size_t e = b.size(); e >= n && e > 0;) {
        Bytes x = b; x.erase(x.begin() + (long)(e - n), x.begin() + (long)e);
        if (ok(x)) { b = x; progress = true; e = std::min(e, b.size()); if (e > b.size()) e = b.size(); }
        else e = e > n ? e - n : 0;
        if (now() - t0 > budget) return b;
      }
      if (n == 1) break;
    }
    for (size_t n = 64; n >= 1; n /= 2)                                   // zero chunks
      for (size_t i = 0; i < b.size(); i += n) {
        size_t m = std::min(n, b.size() - i); bool z = true; for (size_t j = 0; j < m; j++) if (b[i + j]) z = false;
        if (z) continue;
        Bytes x = b; std::fill(x.begin() + (long)i, x.begin() + (long)(i + m), 0);
        if (ok(x)) { b = x; progress = true; }
        if (now() - t0 > budget) return b;
      }
    for (size_t i = 0; i < b.size(); i++) {                               // lower single bytes
      if (!b[i]) continue;
      for (int v : {1, (int)b[i] / 2, (int)b[i] - 1}) if (v < b[i] && v >= 0) { Bytes x = b; x[i] = (uint8_t)v; if (ok(x)) { b = x; progress = true; break; } }
      if (now() - t0 > budget) return b;
    }
    while (!b.empty() && b.back() == 0) { Bytes x(b.begin(), b.end() - 1); if (!ok(x)) break; b = x; }
  }
  return b;
}
static std::string jesc(const std::string &s) { std::string o; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; } else if (ch < 32 || ch > 126) { char t[8]; snprintf(t, 8, "\\u%04x", ch); o += t; } else o += (char)ch; } return o; }
static bool write_replay(const std::string &path, const Prop &p, const Bytes &b, const Result &r) {
  FILE *f = fopen(path.c_str(), "w"); if (!f) return false;
  fprintf(f, "prop %s\nbytes %zu\n", p.name, b.size());
  for (size_t i = 0; i < b.size(); i++) fprintf(f, "%02x%s", b[i], i % 32 == 31 ? "\n" : "");
  fprintf(f, "\n# %s\n# %s\n", r.msg.c_str(), r.desc.c_str());
  fclose(f); return true;
}
static bool read_replay(const std::string &path, std::string &prop, Bytes &b) {
  FILE *f = fopen(path.c_str(), "r"); if (!f) return false;
  char nm[128]; size_t n; b.clear(); char line[1 << 16];
  while (fgets(line, sizeof line, f) && (line[0] == '#' || !strncmp(line, "exe ", 4))) {}
  if (sscanf(line, "prop %127s", nm) != 1 || fscanf(f, " bytes %zu", &n) != 1) { fclose(f); return false; }
  prop = nm; unsigned v; while (b.size() < n && fscanf(f, "%2x", &v) == 1) b.push_back((uint8_t)v);
  fclose(f); return b.size() == n;
}
static uint64_t case_seed(uint64_t seed, uint64_t stream, uint64_t idx) { uint64_t s = seed * 0x2545f4914f6cdd1dull + stream * 0x9e3779b97f4a7c15ull + idx * 0xd1342543de82ef95ull; splitmix(s); return splitmix(s); }

static size_t prop_index(uint64_t idx) {
  if (!only.empty()) { for (size_t i = 0; i < props().size(); i++) if (only == props()[i].name) return i; }
  std::vector<unsigned> w = weights(); uint64_t wt = 0; for (unsigned x : w) wt += x;
  uint64_t v = idx % wt; for (size_t i = 0; i < w.size(); i++) { if (v < w[i]) return i; v -= w[i]; } return 0;
}
// A failure that needs earlier cases of the same process (state hidden in the
// library): a run of cases first, first+step, .., last in one process.
struct Seq { uint64_t seed, stream, first, last, step; };
static Result try_seq(const Seq &q) {
  Result R{0, "", "", 0, 0}; int pf[2]; if (pipe(pf)) { perror("pipe"); exit(71); }
  std::string ef = workdir + "/stderr." + std::to_string(getpid()); fflush(nullptr);
  pid_t k = fork(); if (k < 0) { perror("fork"); exit(71); }
  if (!k) {
    close(pf[0]); quiet(ef.c_str()); signal(SIGPROF, on_cpu);
    std::vector<uint8_t> rec(CAP); uint32_t len; int r = 0; std::string m, d;
    for (uint64_t i = q.first; i <= q.last; i += q.step) {
      size_t pi = prop_index(i); len = 0; arm(cpu_limit);
      Choices c(case_seed(q.seed, q.stream * 64 + pi, i), rec.data(), CAP, &len); c.want_desc = i == q.last; m.clear();
      r = run_case(props()[pi], c, m); d = c.desc; if (r == 1) { m = "after " + std::to_string((i - q.first) / q.step) + " earlier cases in the process: " + m; break; }
    }
    std::string o = m + "\x01" + d; size_t i = 0; while (i < o.size()) { ssize_t w = write(pf[1], o.data() + i, o.size() - i); if (w <= 0) break; i += (size_t)w; }
    _exit(r == 1 ? 1 : 0);
  }
  close(pf[1]); std::string s; char buf[4096]; ssize_t n; while ((n = read(pf[0], buf, sizeof buf)) > 0) s.append(buf, (size_t)n);
  close(pf[0]); int st; waitpid(k, &st, 0); size_t z = s.find('\x01');
  if (WIFEXITED(st) && WEXITSTATUS(st) <= 1 && z != std::string::npos) { R.r = WEXITSTATUS(st); R.msg = s.substr(0, z); R.desc = s.substr(z + 1); }
  else if (harness_exit(st) || oom_kill(st)) { R.r = 3; R.msg = status_text(st); }
  else { R.r = 1; R.msg = status_text(st) + " " + tail(ef); }
  unlink(ef.c_str()); return R;
}

int main(int argc, char **argv) {
  setvbuf(stdout, nullptr, _IOLBF, 0);
  struct rlimit rl; getrlimit(RLIMIT_STACK, &rl); if (rl.rlim_cur == RLIM_INFINITY || rl.rlim_cur > (8u << 20)) { rl.rlim_cur = 8 << 20; setrlimit(RLIMIT_STACK, &rl); }
  rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
  std::map<std::string, std::string> o; std::string mode = argc > 1 ? argv[1] : "list"; std::vector<std::string> pos;
  for (int i = 2; i < argc; i++) { std::string a = argv[i]; if (a.rfind("--", 0) == 0 && i + 1 < argc) { o[a.substr(2)] = argv[i + 1]; i++; } else pos.push_back(a); }
  auto num = [&](const char *k, double d) { return o.count(k) ? atof(o[k].c_str()) : d; };
  if (o.count("work")) workdir = o["work"];
  cpu_limit = (unsigned)num("cpu", 120);
  if (mode == "list") { for (auto &p : props()) printf("%s %u\n", p.name, p.weight); return 0; }
  if (mode == "replay" || mode == "shrink" || mode == "fuzzcase") {
    std::string pn; Bytes b;
    if (mode == "fuzzcase") {                   // libFuzzer artifact: first byte picks the property
      FILE *f = fopen(pos.at(0).c_str(), "rb"); if (!f) return 71; int ch; while ((ch = fgetc(f)) != EOF) b.push_back((uint8_t)ch); fclose(f);
      std::vector<Prop> fz; for (auto &p : props()) if (p.weight) fz.push_back(p);
      if (b.empty()) return 0;
      pn = fz[b[0] % fz.size()].name; b.erase(b.begin());
    } else if (FILE *sf = mode == "replay" ? fopen(pos.at(0).c_str(), "r") : nullptr) {
      char line[512], on[128]; Seq q; bool is = false; unsigned long long a[5];
      while (fgets(line, sizeof line, sf)) if (sscanf(line, "seq %llu %llu %llu %llu %llu %127s", a, a + 1, a + 2, a + 3, a + 4, on) == 6) { is = true; break; }
      fclose(sf);
      if (is) { q = Seq{a[0], a[1], a[2], a[3], a[4]}; if (strcmp(on, "-")) only = on; if (!only.empty() && !find_prop(only)) return 71; Result r = try_seq(q); printf("sequence: %s\n%s\n%s\n", r.r == 0 ? "holds" : r.r == 1 ? "FAILS" : "inconclusive", r.msg.c_str(), r.desc.c_str()); return r.r; }
    }
    if (mode != "fuzzcase" && !read_replay(pos.at(0), pn, b)) { fprintf(stderr, "cannot read replay file\n"); return 71; }
    const Prop *p = find_prop(pn); if (!p) { fprintf(stderr, "no property %s\n", pn.c_str()); return 71; }
    Result r = try_bytes(*p, b, true);
    if (mode == "replay") { printf("%s: %s\n%s\n%s\n", pn.c_str(), r.r == 0 ? "holds" : r.r == 1 ? "FAILS" : r.r == 2 ? "known finding" : "inconclusive", r.msg.c_str(), r.desc.c_str()); return r.r; }
    if (r.r != 1) { printf("does not fail: %d %s\n", r.r, r.msg.c_str()); return r.r; }
    b = shrink(*p, b, r, num("budget", 30)); r = try_bytes(*p, b, true);
    if (!write_replay(o["out"], *p, b, r)) return 71;
    printf("%s\n", r.msg.c_str());
    return 1;
  }
  if (mode == "corpus") {                       // random cases as libFuzzer inputs
    uint64_t seed = (uint64_t)num("seed", 1); int n = (int)num("n", 64);
    std::vector<Prop> fz; for (auto &p : props()) if (p.weight) fz.push_back(p);
    std::vector<uint8_t> rec(CAP); uint32_t len;
    for (int i = 0; i < n; i++) {
      size_t k = (size_t)i % fz.size(); len = 0;
      fflush(nullptr); pid_t q = fork(); if (!q) {
        quiet(nullptr); signal(SIGPROF, on_cpu); arm(cpu_limit);
        Choices c(case_seed(seed, 777, (uint64_t)i), rec.data(), 4000, &len); std::string m; run_case(fz[k], c, m);
        FILE *f = fopen((o["out"] + "/s" + std::to_string(i)).c_str(), "wb"); if (f) { fputc((int)k, f); fwrite(rec.data(), 1, len, f); fclose(f); } _exit(0); }
      int st; waitpid(q, &st, 0);
    }
    return 0;
  }
  if (mode != "run") { fprintf(stderr, "unknown mode\n"); return 71; }
  // ------------------------------------------------------------------ run
  uint64_t seed = (uint64_t)num("seed", 1), cases = (uint64_t)num("cases", 1000), stream = (uint64_t)num("stream", 0);
  int W = (int)num("workers", 4); double tmax = num("time", 600);
  if (o.count("only")) { only = o["only"]; if (!find_prop(only)) { fprintf(stderr, "no property %s\n", only.c_str()); return 71; } }
  Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared) * (size_t)W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (sh == MAP_FAILED) { perror("mmap"); return 71; }
  std::vector<unsigned> w = weights(); uint64_t wt = 0; for (unsigned x : w) wt += x;
  auto prop_of = prop_index;
  if (only.empty() && !wt) { fprintf(stderr, "nothing to run\n"); return 71; }
  double t0 = now(); std::vector<pid_t> pid((size_t)W);
  auto body = [&](int k) {
    Shared &s = sh[k];
    signal(SIGPROF, on_cpu);
    std::unordered_set<uint64_t> seen;
    for (uint64_t i = (uint64_t)k; i < cases; i += (uint64_t)W) {
      if (now() - t0 > tmax) break;
      size_t pi = prop_of(i); s.len = 0; s.case_idx = i; s.state = 1; arm(cpu_limit);
      Choices c(case_seed(seed, stream * 64 + pi, i), s.rec, CAP, &s.len); std::string m; c.want_desc = s.nsample < 4 && i / (uint64_t)W < 64;
      int r = run_case(props()[pi], c, m);
      s.evals = s.evals + 1; if (pi < 64) s.propcount[pi] = s.propcount[pi] + 1;
      s.digest = s.digest + c.out_digest;
      for (const char *n : c.classes) for (int j = 0; j < NCLS; j++) { if (!s.cname[j][0]) { strncpy(s.cname[j], n, 39); } if (!strncmp(s.cname[j], n, 39)) { s.ccount[j] = s.ccount[j] + 1; break; } }
      if (c.is_nontrivial()) { s.nontriv = s.nontriv + 1; uint64_t h = c.seed_mix + pi; if (seen.size() < (1u << 19) && seen.insert(h).second) { s.hash[s.nhash] = h; s.nhash = s.nhash + 1; } }
      if (c.want_desc && c.is_nontrivial()) { std::string d = std::string(props()[pi].name) + ": " + c.desc.substr(0, 600); strncpy(s.sample[s.nsample], d.c_str(), 767); s.nsample = s.nsample + 1; }
      if (r == 2) { s.known = s.known + 1; strncpy(s.known_id, m.c_str(), 63); }
      if (r == 1) { strncpy(s.msg, m.c_str(), sizeof s.msg - 1); s.state = 2; _exit(1); }
      s.state = 0;
    }
    s.state = 3; _exit(0);
  };
  for (int k = 0; k < W; k++) {
    fflush(nullptr); pid[(size_t)k] = fork(); if (pid[(size_t)k] < 0) { perror("fork"); return 71; }
    if (!pid[(size_t)k]) { quiet((workdir + "/w" + std::to_string(k) + ".err").c_str()); body(k); }
  }
  int left = W, failed = -1, fst = 0; bool inconclusive = false; std::string inc;
  while (left > 0) {
    int st; pid_t q = waitpid(-1, &st, 0); if (q < 0) { if (errno == EINTR) continue; break; }
    int k = -1; for (int i = 0; i < W; i++) if (pid[(size_t)i] == q) k = i; if (k < 0) continue;
    left--; pid[(size_t)k] = 0;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh[k].state == 3) continue;
    if (harness_exit(st) || oom_kill(st)) { inconclusive = true; inc = status_text(st); continue; }
    failed = k; fst = st;
    for (int i = 0; i < W; i++) if (pid[(size_t)i]) kill(pid[(size_t)i], SIGKILL);
    for (int i = 0; i < W; i++) if (pid[(size_t)i]) { waitpid(pid[(size_t)i], &st, 0); pid[(size_t)i] = 0; }
    break;
  }
  uint64_t ev = 0, nt = 0, kn = 0, dg = 0; std::set<uint64_t> H; std::map<std::string, uint64_t> C; std::string kid; std::vector<uint64_t> pc(64);
  for (int k = 0; k < W; k++) {
    ev += sh[k].evals; nt += sh[k].nontriv; kn += sh[k].known; dg += sh[k].digest; if (sh[k].known_id[0]) kid = sh[k].known_id;
    for (uint32_t i = 0; i < sh[k].nhash; i++) H.insert(sh[k].hash[i]);
    for (int j = 0; j < NCLS && sh[k].cname[j][0]; j++) C[sh[k].cname[j]] += sh[k].ccount[j];
    for (int j = 0; j < 64; j++) pc[(size_t)j] += sh[k].propcount[j];
  }
  int rc = 0; std::string vmsg;
  if (failed >= 0) {
    Shared &s = sh[failed]; const Prop &p = props()[prop_of(s.case_idx)]; Bytes b(s.rec, s.rec + s.len);
    std::string first = s.state == 2 ? std::string(s.msg) : status_text(fst) + " " + tail(workdir + "/w" + std::to_string(failed) + ".err");
    double tt = now(); Result r = try_bytes(p, b, true); bool slow = now() - tt > 12;
    if (r.r != 1) {
      // Did not fail alone: the failure needs the earlier cases of the same process. Replay the worker's prefix.
      rc = 4; vmsg = "not reproducible: " + first + " (case " + std::to_string(s.case_idx) + ")";
      uint64_t have = s.case_idx / (uint64_t)W; double t1 = now();
      for (uint64_t back = 1; now() - t1 < 60; back = back * 4) {
        if (back > have) back = have;
        Seq q{seed, stream, s.case_idx - back * (uint64_t)W, s.case_idx, (uint64_t)W}; Result x = try_seq(q);
        if (x.r == 1 && try_seq(q).r == 1 && try_seq(q).r == 1) {
          FILE *f = fopen(o["replay"].c_str(), "w"); if (!f) return 71;
          fprintf(f, "seq %llu %llu %llu %llu %llu %s\n# %s\n# %s\n", (unsigned long long)q.seed, (unsigned long long)q.stream, (unsigned long long)q.first, (unsigned long long)q.last, (unsigned long long)q.step, only.empty() ? "-" : only.c_str(), x.msg.c_str(), x.desc.c_str());
          fclose(f); rc = 1; vmsg = x.msg; break;
        }
        if (back == have) break;
      }
    } else {
      if (!slow || cpu_limit <= 30) { b = shrink(p, b, r, num("shrink", 25)); r = try_bytes(p, b, true); }
      int again = 0, times = slow ? 0 : 3; for (int i = 0; i < times; i++) again += try_bytes(p, b).r == 1;   // (check.py replays it three times more)
      if (again == times) { rc = 1; vmsg = r.msg; write_replay(o["replay"], p, b, r); }
      else { rc = 4; vmsg = "flaky: " + first; }
    }
  }
  std::string samples;
  if (rc == 0) {                               // describe a few of the cases this run executed
    int got = 0; std::set<std::string> kinds; int most = (int)num("samples", 4);
    for (int pass = 0; pass < 2; pass++)        // first one of each property, then more
      for (int k = 0; k < W; k++) for (uint32_t j = 0; j < sh[k].nsample && got < most; j++) { std::string d = sh[k].sample[j]; if (d.empty()) continue; bool fresh = kinds.insert(d.substr(0, d.find(':'))).second; if ((pass == 0) != fresh) continue; samples += (got ? ",\"" : "\"") + jesc(d) + "\""; got++; sh[k].sample[j][0] = 0; }
  }
  FILE *f = fopen(o["stats"].c_str(), "w"); if (!f) { perror("stats"); return 71; }
  fprintf(f, "{\"rc\":%d,\"evaluations\":%llu,\"nontrivial\":%llu,\"distinct_nontrivial\":%zu,\"known\":%llu,\"known_id\":\"%s\",\"inconclusive\":\"%s\",\"wall\":%.3f,\"planned\":%llu,\"msg\":\"%s\",\"digest\":\"%llu\",", rc, (unsigned long long)ev, (unsigned long long)nt, H.size(), (unsigned long long)kn, jesc(kid).c_str(), inconclusive ? jesc(inc).c_str() : "", now() - t0, (unsigned long long)cases, jesc(vmsg).c_str(), (unsigned long long)dg);
  fprintf(f, "\"classes\":{"); bool fi = true; for (auto &e : C) { fprintf(f, "%s\"%s\":%llu", fi ? "" : ",", jesc(e.first).c_str(), (unsigned long long)e.second); fi = false; }
  fprintf(f, "},\"props\":{"); fi = true; for (size_t i = 0; i < props().size() && i < 64; i++) if (pc[i]) { fprintf(f, "%s\"%s\":%llu", fi ? "" : ",", props()[i].name, (unsigned long long)pc[i]); fi = false; }
  fprintf(f, "},\"samples\":[%s]}\n", samples.c_str()); fclose(f);
  if (rc) printf("%s\n", vmsg.c_str());
  return rc;
}
