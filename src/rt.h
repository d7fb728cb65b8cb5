// Runtime support: random numbers, violation reports, stderr capture,
// allocation accounting with injectable placement, junk and failures.
#pragma once
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <csignal>
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <unistd.h>
#include <fcntl.h>
#include <sys/time.h>
#include <sys/resource.h>

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ULL + 0x1234567) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
  }
  int below(int n) { return n <= 0 ? 0 : (int)(next() % (uint64_t)n); }
  int range(int a, int b) { return a + below(b - a + 1); } // inclusive
  bool chance(int pct) { return below(100) < pct; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below((int)v.size())]; }
};

namespace rt {
extern FILE *out;              // protocol stream (original stdout)
extern bool verbose;           // replay: print the whole trace
extern long curCase;
extern std::vector<std::string> trace;
extern std::map<std::string, long> counters;
extern std::string lastErr;    // text written to stderr by the library since clearErr
extern int warningCount;       // lines "Warning:" since clearErr
extern bool inLibraryExitOK;
extern volatile bool finished;
extern const char *inOp;       // name of the operation being executed

[[noreturn]] void violation(const char *kind, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void tr(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void init();
void clearErr();
inline void count(const char *name, long n = 1) { counters[name] += n; }

// ---- allocation control (see __wrap_* in rt.cpp)
struct AllocCtl {
  bool junk = true;            // fill fresh memory with a byte pattern
  unsigned char junkByte = 0xA5;
  bool scatter = false;        // random page offsets for aligned_alloc
  long failBig = 0;            // every failBig-th large aligned_alloc fails (0: never)
  size_t bigSize = 4 * 4096 + 1;
  long bigSeen = 0;
  long failed = 0;
  Rng rng{7};
};
extern AllocCtl alloc;
long liveBlocks();             // blocks allocated by library/harness C calls and not freed
void startWatchdog(int seconds);
extern const long pageSize;     // of the library under test
}
#define VIOL(kind, ...) rt::violation(kind, __VA_ARGS__)
