// No output but the documented one: nothing reaches the standard streams (where
// keys, masks and plaintexts would end up in logs), and no descriptor stays open.
#include "programs.h"
#include <dirent.h>
#include <fcntl.h>
#include <iostream>
static int descriptors() { int n = 0; for (int i = 0; i < 200; i++) n += fcntl(i, F_GETFD) >= 0; return n; }
struct Streams {
  int was[2], mem; Streams() { std::cout.flush(); std::cerr.flush(); fflush(nullptr); mem = memfd_create("streams", 0); if (mem < 0) _Exit(70); for (int i = 0; i < 2; i++) { was[i] = dup(i + 1); if (was[i] < 0 || dup2(mem, i + 1) < 0) _Exit(70); } }
  Bytes stop() { if (mem < 0) return Bytes(); std::cout.flush(); std::cerr.flush(); std::clog.flush(); fflush(nullptr); for (int i = 0; i < 2; i++) { dup2(was[i], i + 1); close(was[i]); } off_t n = lseek(mem, 0, SEEK_END); Bytes b((size_t)n); if (n && pread(mem, b.data(), b.size(), 0) < 0) _Exit(70); close(mem); mem = -1; return b; }
  ~Streams() { stop(); }
};
static void silent(const Program &p, const char *what) {
  int before = descriptors(); Streams s; p(); Bytes b = s.stop(); size_t n = b.size(); if (n > 60) b.resize(60); for (auto &x : b) if (x < 32 || x > 126) x = ' ';
  CHECK(!n, "%s wrote %zu bytes to the standard streams: \"%s\"", what, n, std::string(b.begin(), b.end()).c_str()); int after = descriptors(); CHECK(after <= before, "%s left %d descriptors open", what, after - before);
}
PROPERTY(sessions, 6) { Program p = session_program(c, 10, 400); c.nontrivial(); silent(p, "a session"); }
#ifdef HAVE_he
PROPERTY(public_key, 4) { Program p = he_program(c, 6); c.nontrivial(); silent(p, "a public-key operation"); }
#endif
PROPERTY(long_session, 0) { Program p = session_program(c, 40, c.chance(1, 3) ? 300000 : 5000); c.nontrivial(); silent(p, "a long session"); }
