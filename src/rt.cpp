#include "rt.h"
#include <malloc.h>
#include <cxxabi.h>
#include <unordered_map>

namespace rt {
const long pageSize = PAGE_SIZE;
FILE *out;
bool verbose = false;
long curCase = -1;
std::vector<std::string> trace;
std::map<std::string, long> counters;
std::string lastErr;
int warningCount = 0;
volatile bool finished = false;
const char *inOp = "";
AllocCtl alloc;
static FILE *realErr;

static ssize_t errWrite(void *, const char *buf, size_t n) {
  if (lastErr.size() < 100000) lastErr.append(buf, n);
  for (size_t i = 0; i + 8 <= n; i++)
    if (memcmp(buf + i, "Warning:", 8) == 0) warningCount++;
  return (ssize_t)n;
}

void clearErr() {
  fflush(stderr);
  lastErr.clear();
  warningCount = 0;
}

static void dumpTrace() {
  size_t n = trace.size(), from = n > 40 ? n - 40 : 0;
  for (size_t i = from; i < n; i++) fprintf(out, "TRACE %s\n", trace[i].c_str());
}

void violation(const char *kind, const char *fmt, ...) {
  char buf[2000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  for (char *p = buf; *p; p++) if (*p == '\n') *p = ' ';
  if (!verbose) dumpTrace();
  fprintf(out, "VIOL case=%ld kind=%s %s\n", curCase, kind, buf);
  fflush(out);
  finished = true;
  _exit(42);
}

void tr(const char *fmt, ...) {
  char buf[1000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (trace.size() > 400) trace.erase(trace.begin(), trace.begin() + 200);
  trace.push_back(buf);
  if (verbose) { fprintf(out, "TRACE %s\n", buf); fflush(out); }
}

static void onExit() {
  if (finished) return;
  fflush(stderr);
  std::string e = lastErr.size() > 300 ? lastErr.substr(lastErr.size() - 300) : lastErr;
  violation("fatal-exit", "the library ended the process during %s: %s", inOp, e.c_str());
}

static void onAbort(int) {
  fflush(stderr);
  std::string e = lastErr.size() > 300 ? lastErr.substr(lastErr.size() - 300) : lastErr;
  violation("assertion", "abort during %s: %s", inOp, e.c_str());
}

#if !defined(ASAN_BUILD)
static void onSegv(int sig) {
  violation("crash", "signal %d during %s", sig, inOp);
}
#endif

static void onAlarm(int) {
  fprintf(out, "HANG case=%ld op=%s\n", curCase, inOp);
  fflush(out);
  finished = true;
  _exit(43);
}

void startWatchdog(int seconds) {
  struct itimerval it;
  memset(&it, 0, sizeof it);
  it.it_value.tv_sec = seconds;
  setitimer(ITIMER_PROF, &it, nullptr);
}

void init() {
  int fd = dup(1);
  out = fdopen(fd, "w");
  int nul = open("/dev/null", O_WRONLY);
  dup2(nul, 1);
  close(nul);
  realErr = stderr;
  (void)realErr;
  cookie_io_functions_t io;
  memset(&io, 0, sizeof io);
  io.write = errWrite;
  FILE *f = fopencookie(nullptr, "w", io);
  setvbuf(f, nullptr, _IONBF, 0);
  stderr = f;
  atexit(onExit);
  signal(SIGABRT, onAbort);
  signal(SIGPROF, onAlarm);
#if !defined(ASAN_BUILD)
  static char stk[1 << 16];
  stack_t ss;
  memset(&ss, 0, sizeof ss);
  ss.ss_sp = stk;
  ss.ss_size = sizeof stk;
  sigaltstack(&ss, nullptr);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = onSegv;
  sa.sa_flags = SA_ONSTACK;
  sigaction(SIGSEGV, &sa, nullptr);
  sigaction(SIGBUS, &sa, nullptr);
  sigaction(SIGFPE, &sa, nullptr);
  sigaction(SIGILL, &sa, nullptr);
#endif
}

static long live = 0;
long liveBlocks() { return live; }
} // namespace rt

// ---------------------------------------------------------------------------
// Linked with --wrap, so that only the objects under test and the harness's own
// C-style allocations come through here.
extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void *__real_aligned_alloc(size_t, size_t);
void __real_free(void *);

struct Placed { void *base; };
static std::unordered_map<void *, void *> *placed; // returned -> base

void *__wrap_malloc(size_t n) {
  void *p = __real_malloc(n);
  if (p) {
    rt::live++;
    if (rt::alloc.junk && n <= (1u << 22)) memset(p, rt::alloc.junkByte, n);
  }
  return p;
}
void *__wrap_calloc(size_t a, size_t b) {
  void *p = __real_calloc(a, b);
  if (p) rt::live++;
  return p;
}
void *__wrap_realloc(void *q, size_t n) {
  void *p = __real_realloc(q, n);
  if (!q && p) rt::live++;
  return p;
}
void *__wrap_aligned_alloc(size_t al, size_t n) {
  using rt::alloc;
  if (n >= alloc.bigSize && alloc.failBig) {
    if (++alloc.bigSeen % alloc.failBig == 0) {
      alloc.failed++;
      return nullptr;
    }
  }
  size_t extra = alloc.scatter ? (size_t)alloc.rng.below(64) * al : 0;
  char *b = (char *)__real_aligned_alloc(al, n + extra);
  if (!b) return nullptr;
  if (alloc.junk) memset(b, alloc.junkByte, n + extra);
  rt::live++;
  if (extra) {
    if (!placed) placed = new std::unordered_map<void *, void *>;
    (*placed)[b + extra] = b;
  }
  return b + extra;
}
void __wrap_free(void *p) {
  if (!p) return;
  rt::live--;
  if (placed) {
    auto it = placed->find(p);
    if (it != placed->end()) {
      void *b = it->second;
      placed->erase(it);
      __real_free(b);
      return;
    }
  }
  __real_free(p);
}
}
