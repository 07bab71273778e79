#include "pbt.h"

#include <errno.h>
#include <execinfo.h>
#include <fcntl.h>
#include <dlfcn.h>
#include <gmp.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <map>
#include <set>
#include <unordered_set>

using namespace pbt;

// ---------------------------------------------------------------- allocation ledger
thread_local bool pbt::raw_alloc = false;
extern "C" {
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);
void* __wrap_malloc(size_t);
void* __wrap_calloc(size_t, size_t);
void* __wrap_realloc(void*, size_t);
void __wrap_free(void*);
char* __wrap_strdup(const char*);
char* __wrap_strndup(const char*, size_t);
void __wrap_exit(int);
void __real_exit(int) __attribute__((noreturn));
}
namespace {
struct Ent {
  void* p;
  uint64_t serial;
  size_t size;
  void* caller;
};
Ent* g_tab = nullptr;
size_t g_cap = 0, g_live = 0, g_bytes = 0;
uint64_t g_serial = 0;
bool g_in_case = false;
bool g_exempt = false;

inline size_t hptr(void* p) {
  uint64_t x = (uint64_t)p >> 4;
  x *= 0x9e3779b97f4a7c15ULL;
  return (size_t)(x >> 20);
}
void tab_init() {
  g_cap = 1 << 16;
  g_tab = (Ent*)__real_calloc(g_cap, sizeof(Ent));
}
void tab_put_raw(const Ent& e) {
  size_t i = hptr(e.p) & (g_cap - 1);
  while (g_tab[i].p) i = (i + 1) & (g_cap - 1);
  g_tab[i] = e;
}
void tab_add(void* p, size_t size, void* caller) {
  if (!p || pbt::raw_alloc) return;
  if (!g_tab) tab_init();
  if ((g_live + 1) * 2 > g_cap) {
    Ent* old = g_tab;
    size_t oc = g_cap;
    g_cap *= 2;
    g_tab = (Ent*)__real_calloc(g_cap, sizeof(Ent));
    for (size_t i = 0; i < oc; i++)
      if (old[i].p) tab_put_raw(old[i]);
    __real_free(old);
  }
  tab_put_raw(Ent{p, ++g_serial, size, caller});
  g_live++;
  g_bytes += size;
}
void tab_del(void* p) {
  if (!p || !g_tab || pbt::raw_alloc) return;
  size_t i = hptr(p) & (g_cap - 1);
  while (g_tab[i].p && g_tab[i].p != p) i = (i + 1) & (g_cap - 1);
  if (!g_tab[i].p) return;
  g_live--;
  g_bytes -= g_tab[i].size;
  // backward-shift deletion
  size_t j = i;
  for (;;) {
    j = (j + 1) & (g_cap - 1);
    if (!g_tab[j].p) break;
    size_t k = hptr(g_tab[j].p) & (g_cap - 1);
    if ((j > i && (k <= i || k > j)) || (j < i && (k <= i && k > j))) {
      g_tab[i] = g_tab[j];
      i = j;
    }
  }
  g_tab[i].p = nullptr;
}
void* gmp_alloc(size_t n) {
  void* p = __real_malloc(n);
  tab_add(p, n, (void*)&gmp_alloc);
  return p;
}
void* gmp_realloc(void* p, size_t, size_t n) {
  tab_del(p);
  void* q = __real_realloc(p, n);
  tab_add(q, n, (void*)&gmp_realloc);
  return q;
}
void gmp_free(void* p, size_t) {
  tab_del(p);
  __real_free(p);
}
}  // namespace

size_t pbt::alloc_limit = 0;
thread_local long pbt::alloc_count = 0, pbt::alloc_fail = 0;
thread_local void* pbt::alloc_failed = nullptr;
static inline bool fails(void* site, size_t n) {
  if (!n || ++pbt::alloc_count != pbt::alloc_fail) return false;
  pbt::alloc_failed = site;
  return true;
}
static thread_local bool g_over = false;  // the limit has refused memory in this case
static inline bool too_much(size_t n) {
  if (!pbt::alloc_limit || !g_in_case || (n <= pbt::alloc_limit && g_bytes + n <= pbt::alloc_limit)) return false;
  return g_over = true;
}
extern "C" {
void* __wrap_malloc(size_t n) {
  if (too_much(n) || fails(__builtin_return_address(0), n)) return nullptr;
  void* p = __real_malloc(n);
  tab_add(p, n, __builtin_return_address(0));
  return p;
}
void* __wrap_calloc(size_t a, size_t b) {
  if (b && (a > (size_t)-1 / b || too_much(a * b))) return nullptr;
  if (fails(__builtin_return_address(0), a * b)) return nullptr;
  void* p = __real_calloc(a, b);
  tab_add(p, a * b, __builtin_return_address(0));
  return p;
}
void* __wrap_realloc(void* p, size_t n) {
  if (too_much(n) || fails(__builtin_return_address(0), n)) return nullptr;
  tab_del(p);
  void* q = __real_realloc(p, n);
  tab_add(q, n, __builtin_return_address(0));
  return q;
}
void __wrap_free(void* p) {
  tab_del(p);
  __real_free(p);
}
char* __wrap_strdup(const char* s) {
  size_t n = strlen(s) + 1;
  if (fails(__builtin_return_address(0), n)) return nullptr;
  char* p = (char*)__real_malloc(n);
  if (p) memcpy(p, s, n);
  tab_add(p, n, __builtin_return_address(0));
  return p;
}
char* __wrap_strndup(const char* s, size_t m) {
  size_t n = strnlen(s, m);
  if (fails(__builtin_return_address(0), n + 1)) return nullptr;
  char* p = (char*)__real_malloc(n + 1);
  if (p) {
    memcpy(p, s, n);
    p[n] = 0;
  }
  tab_add(p, n + 1, __builtin_return_address(0));
  return p;
}
void __wrap_exit(int code) {
  if (g_in_case) throw OslExit{code};
  __real_exit(code);
}
}

// ---------------------------------------------------------------- coverage counters
namespace {
uint8_t *g_cov0 = nullptr, *g_cov1 = nullptr;
struct CovSeg {
  uint8_t *b, *e;
};
CovSeg g_seg[256];
int g_nseg = 0;
}  // namespace
extern "C" void __sanitizer_cov_8bit_counters_init(uint8_t* b, uint8_t* e) {
  for (int i = 0; i < g_nseg; i++)
    if (g_seg[i].b == b) return;
  if (b != e && g_nseg < 256) g_seg[g_nseg++] = {b, e};
}
extern "C" void __sanitizer_cov_pcs_init(const uintptr_t*, const uintptr_t*) {}

namespace {
size_t cov_size() {
  size_t n = 0;
  for (int i = 0; i < g_nseg; i++) n += g_seg[i].e - g_seg[i].b;
  return n;
}
void cov_clear() {
  for (int i = 0; i < g_nseg; i++) memset(g_seg[i].b, 0, g_seg[i].e - g_seg[i].b);
}
inline uint8_t bucket(uint8_t v) {
  if (v <= 3) return (uint8_t)(1 << v);
  if (v < 8) return 16;
  if (v < 16) return 32;
  if (v < 64) return 64;
  return 128;
}
// merges the counters into `seen`; returns the number of new buckets
int cov_merge(std::vector<uint8_t>& seen) {
  int fresh = 0;
  size_t k = 0;
  for (int i = 0; i < g_nseg; i++)
    for (uint8_t* p = g_seg[i].b; p != g_seg[i].e; p++, k++)
      if (*p) {
        uint8_t b = bucket(*p);
        if (!(seen[k] & b)) {
          seen[k] |= b;
          fresh++;
        }
      }
  return fresh;
}
}  // namespace

// ---------------------------------------------------------------- choices
namespace {
const uint32_t MAXC = 1 << 17;
struct Slot {
  std::atomic<uint64_t> seq;  // increases at every case start
  uint64_t done;
  uint32_t sub;
  uint32_t n;
  uint32_t failed;
  uint64_t index;
  char tag[256];
  char msg[8192];
  uint32_t c[MAXC];
};
Slot* g_slot = nullptr;   // slot of this process
std::map<std::string, long>* g_labels = nullptr;

double now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
}  // namespace

Src::Src(const std::vector<uint32_t>* prefix, Rng* rng) : pre_(prefix), rng_(rng), n_(0) {}

uint32_t Src::below(uint32_t n) {
  if (n <= 1) return 0;
  uint32_t v;
  if (pre_ && n_ < pre_->size())
    v = (*pre_)[n_] % n;
  else if (rng_ && n_ < MAXC / 2)
    v = rng_->below(n);
  else
    v = 0;
  if (n_ < MAXC) {
    g_slot->c[n_] = v;
    g_slot->n = (uint32_t)n_ + 1;
  }
  n_++;
  return v;
}
uint64_t Src::u64() {
  uint64_t r = 0;
  for (int i = 0; i < 4; i++) r = (r << 16) | below(65536);
  return r;
}
int Src::sized(int max, int over) {
  if (max <= 0) return 0;
  if (below(150) == 149) return max + (int)below((uint32_t)over + 1);
  return small(max);
}
int Src::small(int max) {
  if (max <= 0) return 0;
  switch (below(4)) {
    case 0:
      return (int)below((uint32_t)std::min(max, 1) + 1);
    case 1:
      return (int)below((uint32_t)std::min(max, 2) + 1);
    case 2:
      return (int)below((uint32_t)std::min(max, 4) + 1);
    default:
      return (int)below((uint32_t)max + 1);
  }
}

void pbt::label(const std::string& l) {
  if (g_labels) (*g_labels)[l]++;
}
void pbt::fail(const std::string& tag, const std::string& msg) { throw Fail{tag, msg}; }
void pbt::discard() { throw Discard{}; }
size_t pbt::live_allocs() { return g_live; }

bool pbt::exits(const std::function<void()>& f) {
  try {
    f();
  } catch (OslExit&) {
    g_exempt = true;
    return true;
  }
  return false;
}

// ---------------------------------------------------------------- running one case
namespace {
enum Outcome { OK, DISCARDED, FAILED };
struct Result {
  Outcome o = OK;
  bool nontrivial = false;
  std::string tag, msg, log;
};

std::string where(void* a) {
  Dl_info di;
  char b[256];
  if (dladdr(a, &di) && di.dli_sname) {
    snprintf(b, sizeof b, "%s+0x%lx", di.dli_sname, (long)((char*)a - (char*)di.dli_saddr));
    return b;
  }
  snprintf(b, sizeof b, "%p", a);
  return b;
}

Result run_once(const Sub& sub, const std::vector<uint32_t>* pre, Rng* rng, bool rendering,
                bool leaks) {
  Result r;
  size_t live0 = g_live;
  uint64_t ser0 = g_serial;
  bool exempt = false;
  g_slot->n = 0;
  {
    g_exempt = false;
    g_over = false;
    Case c(pre, rng);
    c.rendering = rendering;
    g_in_case = true;
    try {
      sub.fn(c);
    } catch (Fail& f) {
      r.o = FAILED;
      r.tag = f.tag;
      r.msg = f.msg;
    } catch (Discard&) {
      r.o = DISCARDED;
    } catch (OslExit& e) {
      r.o = g_over ? DISCARDED : FAILED;  // the limit is ours, such an exit is no fault of the library
      c.leak_exempt = c.leak_exempt || g_over;
      r.tag = "unexpected-error-exit";
      char b[64];
      snprintf(b, sizeof b, "the library called exit(%d)", e.code);
      r.msg = b;
    } catch (std::exception& e) {
      r.o = FAILED;
      r.tag = "harness-exception";
      r.msg = e.what();
    }
    g_in_case = false;
    r.nontrivial = c.nontrivial;
    exempt = c.leak_exempt || g_exempt;
    if (rendering || r.o == FAILED) r.log = c.log.str();
  }
  if (alloc_limit && exempt && r.o != FAILED && g_live > live0) {
    // what an error exit left behind (a process would have ended there)
    std::vector<void*> left;
    for (size_t i = 0; i < g_cap; i++)
      if (g_tab[i].p && g_tab[i].serial > ser0 && g_tab[i].caller != (void*)&gmp_alloc &&
          g_tab[i].caller != (void*)&gmp_realloc)
        left.push_back(g_tab[i].p);
    for (void* p : left) __wrap_free(p);
  }
  if (r.o == OK && leaks && !exempt && g_live > live0) {
    std::ostringstream o;
    int k = 0;
    o << (g_live - live0) << " allocation(s) made in the case are still live:";
    for (size_t i = 0; i < g_cap && k < 8; i++)
      if (g_tab[i].p && g_tab[i].serial > ser0) {
        o << " " << g_tab[i].size << " bytes from " << where(g_tab[i].caller) << ";";
        k++;
      }
    r.o = FAILED;
    r.tag = "leak";
    r.msg = o.str();
  }
  return r;
}

// Runs a case; a leak must show again when the same case is repeated (a one-time cache
// inside the library is not a leak).
Result run_case(const Sub& sub, const std::vector<uint32_t>* pre, Rng* rng, bool rendering) {
  Result r = run_once(sub, pre, rng, rendering, sub.leaks);
  if (r.o == FAILED && r.tag == "leak") {
    std::vector<uint32_t> ch(g_slot->c, g_slot->c + std::min<uint32_t>(g_slot->n, MAXC));
    for (int i = 0; i < 2; i++) {
      Result q = run_once(sub, &ch, nullptr, rendering, true);
      if (q.o != FAILED || q.tag != "leak") return q;
    }
  }
  return r;
}

void quiet_fds(const char* errpath) {
  int d = open("/dev/null", O_RDWR);
  dup2(d, 1);
  if (errpath) {
    int e = open(errpath, O_WRONLY | O_CREAT | O_TRUNC, 0600);
    dup2(e, 2);
    close(e);
  } else {
    dup2(d, 2);
  }
  close(d);
}

// The processor time of a child.
double cpu_of(pid_t p) {
  clockid_t id;
  timespec ts;
  if (clock_getcpuclockid(p, &id) || clock_gettime(id, &ts)) return 0;
  return (double)ts.tv_sec + (double)ts.tv_nsec * 1e-9;
}

int g_prist = -1;
bool full_read(int fd, void* p, size_t n) {
  char* c = (char*)p;
  while (n) {
    ssize_t k = read(fd, c, n);
    if (k < 0 && errno == EINTR) continue;
    if (k <= 0) return false;
    c += k;
    n -= (size_t)k;
  }
  return true;
}
bool full_write(int fd, const void* p, size_t n) {
  const char* c = (const char*)p;
  while (n) {
    ssize_t k = send(fd, c, n, MSG_NOSIGNAL);
    if (k < 0 && errno == EINTR) continue;
    if (k <= 0) return false;
    c += k;
    n -= (size_t)k;
  }
  return true;
}
// Runs a case in a forked child; fills tag/msg. Returns true if it failed.
Slot* g_try = nullptr;
bool forked(const Sub& sub, int subi, const std::vector<uint32_t>& ch, const char* errpath,
            Result& out, int secs = 10, bool rendering = false, std::string* logout = nullptr,
            const char* logpath = nullptr) {
  Slot* sl = g_try;
  sl->n = 0;
  sl->failed = 0;
  sl->sub = (uint32_t)subi;
  sl->tag[0] = sl->msg[0] = 0;
  pid_t p = fork();
  if (p == 0) {
    alarm((unsigned)secs * 6);
    itimerval tv = {{0, 0}, {secs, 0}};
    setitimer(ITIMER_PROF, &tv, nullptr);
    quiet_fds(errpath);
    g_slot = sl;
    g_labels = nullptr;
    if (property.start) property.start();
    Result r = run_case(sub, &ch, nullptr, rendering);
    if (r.o == FAILED) {
      sl->failed = 1;
      snprintf(sl->tag, sizeof sl->tag, "%s", r.tag.c_str());
      snprintf(sl->msg, sizeof sl->msg, "%s", r.msg.c_str());
    }
    if (logpath) {
      FILE* f = fopen(logpath, "w");
      if (f) {
        fwrite(r.log.data(), 1, r.log.size(), f);
        fclose(f);
      }
    }
    _exit(r.o == FAILED ? 10 : 0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  if (logout && logpath) {
    FILE* f = fopen(logpath, "r");
    if (f) {
      char b[4096];
      size_t k;
      while ((k = fread(b, 1, sizeof b, f)) > 0) logout->append(b, k);
      fclose(f);
    }
  }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
  out.o = FAILED;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 10) {
    out.tag = sl->tag;
    out.msg = sl->msg;
  } else if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGPROF)) {
    out.tag = "hang";
    out.msg = "no result within the time limit";
  } else {
    out.tag = "crash";
    char b[128];
    if (WIFSIGNALED(st))
      snprintf(b, sizeof b, "killed by signal %d", WTERMSIG(st));
    else
      snprintf(b, sizeof b, "sanitizer abort or exit code %d", WEXITSTATUS(st));
    out.msg = b;
  }
  return true;
}

std::vector<uint32_t> shrink(const Sub& sub, int subi, std::vector<uint32_t> best,
                             const std::string& tag, double budget, long& attempts) {
  double t0 = now();
  const long maxatt = 4000;
  auto attempt = [&](const std::vector<uint32_t>& cand) {
    if (attempts >= maxatt || now() - t0 > budget) return false;
    attempts++;
    Result r;
    if (!forked(sub, subi, cand, nullptr, r, tag == "hang" ? 5 : 10)) return false;
    if (r.tag != tag) return false;
    std::vector<uint32_t> used = cand;
    if (g_try->n < used.size() && tag != "hang") {
      // the case drew fewer choices than given
      used.resize(g_try->n);
    }
    // trailing zeros are implied
    while (!used.empty() && used.back() == 0) used.pop_back();
    best = used;
    return true;
  };
  while (!best.empty() && best.back() == 0) best.pop_back();
  bool progress = true;
  while (progress && attempts < maxatt && now() - t0 < budget) {
    progress = false;
    for (size_t k = std::max<size_t>(1, best.size() / 2); k >= 1; k /= 2) {
      for (size_t i = best.size(); i > 0;) {
        i = i > k ? i - k : 0;
        if (i >= best.size()) continue;
        std::vector<uint32_t> c = best;
        c.erase(c.begin() + i, c.begin() + std::min(c.size(), i + k));
        if (attempt(c)) {
          progress = true;
          if (i > best.size()) i = best.size();
          continue;
        }
        if (k > 1 || (i < best.size() && best[i] != 0)) {
          c = best;
          bool any = false;
          for (size_t j = i; j < std::min(c.size(), i + k); j++)
            if (c[j]) {
              c[j] = 0;
              any = true;
            }
          if (any && attempt(c)) progress = true;
        }
        if (i > best.size()) i = best.size();
      }
      if (k == 1) break;
    }
    for (size_t i = 0; i < best.size(); i++) {
      uint32_t lo = 0;
      while (i < best.size() && best[i] > lo) {
        uint32_t mid = lo + (best[i] - lo) / 2;
        std::vector<uint32_t> c = best;
        c[i] = mid;
        if (attempt(c))
          progress = true;
        else
          lo = mid + 1;
        if (attempts >= maxatt || now() - t0 > budget) break;
      }
    }
  }
  return best;
}

std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char ch : s) {
    char b[8];
    if (ch == '"' || ch == '\\') {
      o += '\\';
      o += (char)ch;
    } else if (ch == '\n')
      o += "\\n";
    else if (ch < 32 || ch >= 127) {
      snprintf(b, sizeof b, "\\u%04x", ch);
      o += b;
    } else
      o += (char)ch;
  }
  return o + "\"";
}

struct Opts {
  uint64_t seed = 1;
  bool thorough = false;
  int workers = 8;
  double maxsecs = 420;
  double scale = 1.0;
  std::string out, scratch, replay, replaydir, known;
};

uint64_t hash_str(const std::string& s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
  return h;
}
uint64_t hash_choices(int sub, const uint32_t* c, uint32_t n) {
  uint64_t h = 1469598103934665603ULL ^ (uint64_t)sub;
  for (uint32_t i = 0; i < n; i++) {
    h ^= c[i];
    h *= 1099511628211ULL;
    h ^= h >> 29;
  }
  return h;
}

struct Corpus {
  std::vector<std::vector<uint32_t>> v;
};

std::vector<uint32_t> mutate(const Corpus& co, Rng& r) {
  std::vector<uint32_t> m = co.v[r.below((uint32_t)co.v.size())];
  int k = 1 + (int)r.below(4);
  for (int i = 0; i < k && !m.empty(); i++) {
    uint32_t p = r.below((uint32_t)m.size());
    switch (r.below(6)) {
      case 0:
        m[p] = (uint32_t)r.next();
        break;
      case 1:
        m[p] = r.below(4);
        break;
      case 2:
        m.erase(m.begin() + p,
                m.begin() + std::min<size_t>(m.size(), p + 1 + r.below(8)));
        break;
      case 3:
        m.insert(m.begin() + p, (uint32_t)r.next());
        break;
      case 4: {  // duplicate a chunk
        size_t e = std::min<size_t>(m.size(), p + 1 + r.below(16));
        std::vector<uint32_t> ch(m.begin() + p, m.begin() + e);
        if (m.size() < 20000) m.insert(m.begin() + p, ch.begin(), ch.end());
        break;
      }
      default: {  // splice, or cut the tail so that it is drawn anew
        if (r.below(2)) {
          m.resize(p);
        } else {
          const std::vector<uint32_t>& o = co.v[r.below((uint32_t)co.v.size())];
          if (!o.empty()) {
            uint32_t q = r.below((uint32_t)o.size());
            m.resize(p);
            m.insert(m.end(), o.begin() + q, o.end());
          }
        }
      }
    }
  }
  return m;
}

// The deterministic case stream of one worker.
void worker(const Opts& o, int w, Slot* sl, const std::string& base, long stop_after) {
  g_slot = sl;
  if (property.start) property.start();
  std::map<std::string, long> labels;
  g_labels = &labels;
  Property& P = property;
  Rng rng(hash_str(P.id) ^ (o.seed * 0x9e3779b97f4a7c15ULL) ^ ((uint64_t)w << 40));
  rng.next();
  size_t ns = P.subs.size();
  std::vector<long> want(ns), did(ns, 0);
  long total = 0;
  for (size_t i = 0; i < ns; i++) {
    double q = (double)(o.thorough ? P.subs[i].thorough : P.subs[i].quick) * o.scale;
    want[i] = std::max(1L, (long)(q / o.workers + 0.999));
    total += want[i];
  }
  std::vector<Corpus> corpus(ns);
  std::vector<uint8_t> seen(cov_size(), 0);
  std::unordered_set<uint64_t> distinct;
  std::vector<long> nontriv(ns, 0), disc(ns, 0);
  std::vector<std::string> samples;
  std::vector<int> sampled(ns, 0);
  double t0 = now();
  long evals = 0;
  for (long it = 0; it < total; it++) {
    if (stop_after >= 0 && it > stop_after) break;
    if ((it & 15) == 0 && now() - t0 > o.maxsecs) break;
    // the sub-check which is furthest behind
    size_t bi = 0;
    double bf = 2;
    for (size_t i = 0; i < ns; i++) {
      double f = (double)did[i] / (double)want[i];
      if (did[i] < want[i] && f < bf) {
        bf = f;
        bi = i;
      }
    }
    did[bi]++;
    std::vector<uint32_t> pre;
    Rng crng(rng.next());
    bool mut = !corpus[bi].v.empty() && rng.below(100) < 30;
    if (mut) pre = mutate(corpus[bi], rng);
    sl->sub = (uint32_t)bi;
    sl->index = (uint64_t)it;
    sl->n = 0;
    sl->seq.fetch_add(1);
    cov_clear();
    bool want_sample = sampled[bi] < 1 && (did[bi] * 7 > want[bi] || did[bi] > 40);
    Result r = run_case(P.subs[bi], mut ? &pre : nullptr, &crng, want_sample);
    evals++;
    if (r.o == FAILED) {
      snprintf(sl->tag, sizeof sl->tag, "%s", r.tag.c_str());
      snprintf(sl->msg, sizeof sl->msg, "%s", r.msg.c_str());
      sl->failed = 1;
      _exit(10);
    }
    if (r.o == DISCARDED) {
      disc[bi]++;
      continue;
    }
    uint32_t n = std::min<uint32_t>(sl->n, MAXC);
    if (r.nontrivial) {
      nontriv[bi]++;
      distinct.insert(hash_choices((int)bi, sl->c, n));
      if (want_sample && !r.log.empty()) {
        sampled[bi]++;
        samples.push_back(std::string(P.subs[bi].name) + ": " + r.log.substr(0, 1500));
      }
    }
    if (n < 6000 && cov_merge(seen) > 0 && corpus[bi].v.size() < 4000)
      corpus[bi].v.emplace_back(sl->c, sl->c + n);
  }
  sl->done = 1;
  FILE* f = fopen((base + ".stats").c_str(), "w");
  if (!f) _exit(3);
  fprintf(f, "evals %ld\n", evals);
  for (size_t i = 0; i < ns; i++)
    fprintf(f, "sub %zu %ld %ld %ld\n", i, did[i], nontriv[i], disc[i]);
  for (auto& l : labels) fprintf(f, "label %ld %s\n", l.second, l.first.c_str());
  fclose(f);
  f = fopen((base + ".hash").c_str(), "wb");
  for (uint64_t h : distinct) fwrite(&h, 8, 1, f);
  fclose(f);
  f = fopen((base + ".cov").c_str(), "wb");
  fwrite(seen.data(), 1, seen.size(), f);
  fclose(f);
  f = fopen((base + ".samples").c_str(), "wb");
  for (auto& s : samples) {
    fwrite(s.c_str(), 1, s.size() + 1, f);
  }
  fclose(f);
  _exit(0);
}

Slot* mkslot() {
  void* m = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (m == MAP_FAILED) {
    perror("mmap");
    _exit(3);
  }
  return (Slot*)m;
}
std::string slurp(const std::string& p) {
  std::string s;
  FILE* f = fopen(p.c_str(), "rb");
  if (!f) return s;
  char b[65536];
  size_t k;
  while ((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k);
  fclose(f);
  return s;
}

int sub_by_name(const std::string& n) {
  for (size_t i = 0; i < property.subs.size(); i++)
    if (n == property.subs[i].name) return (int)i;
  return -1;
}
}  // namespace

int pbt::engine_main(int argc, char** argv) {
  Opts o;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--seed")
      o.seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--thorough")
      o.thorough = true;
    else if (a == "--workers")
      o.workers = atoi(val().c_str());
    else if (a == "--maxsecs")
      o.maxsecs = atof(val().c_str());
    else if (a == "--scale")
      o.scale = atof(val().c_str());
    else if (a == "--out")
      o.out = val();
    else if (a == "--scratch")
      o.scratch = val();
    else if (a == "--replay")
      o.replay = val();
    else if (a == "--known")
      o.known = val();
    else if (a == "--replaydir")
      o.replaydir = val();
    else {
      fprintf(stderr, "unknown option %s\n", a.c_str());
      return 2;
    }
  }
  mp_set_memory_functions(gmp_alloc, gmp_realloc, gmp_free);
  unsetenv("OSL_PRECISION");
  if (property.init) property.init();
  g_slot = mkslot();
  g_try = mkslot();
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);

  auto stream_replay = [&](int w, long idx, Result& r) {
    // Re-runs the stream of worker w up to case idx in one process.
    Slot* sl = mkslot();
    pid_t p = fork();
    if (p == 0) {
      quiet_fds(nullptr);
      Opts q = o;
      q.maxsecs = 1e9;
      worker(q, w, sl, o.scratch + "/sr", idx);
      _exit(0);
    }
    int st;
    waitpid(p, &st, 0);
    bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    if (bad) {
      r.o = FAILED;
      r.tag = sl->failed ? sl->tag : "crash";
      r.msg = sl->failed ? sl->msg : "crash";
    }
    munmap(sl, sizeof(Slot));
    return bad;
  };

  if (!o.replay.empty()) {
    std::string t = slurp(o.replay);
    std::istringstream in(t);
    std::string line, subn, ch;
    std::string stream;
    while (std::getline(in, line)) {
      if (line.rfind("sub: ", 0) == 0) subn = line.substr(5);
      if (line.rfind("choices:", 0) == 0) ch = line.substr(8);
      if (line.rfind("stream: ", 0) == 0) stream = line.substr(8);
    }
    if (!stream.empty()) {
      int w;
      long idx;
      unsigned long long seed;
      int th;
      if (sscanf(stream.c_str(), "seed=%llu worker=%d index=%ld thorough=%d workers=%d scale=%lf",
                 &seed, &w, &idx, &th, &o.workers, &o.scale) != 6)
        return 2;
      o.seed = seed;
      o.thorough = th;
      if (o.scratch.empty()) o.scratch = "/tmp";
      Result r;
      if (stream_replay(w, idx, r)) {
        printf("REPRODUCED tag=%s %s\n", r.tag.c_str(), r.msg.c_str());
        return 1;
      }
      printf("not reproduced\n");
      return 0;
    }
    int si = sub_by_name(subn);
    if (si < 0) {
      fprintf(stderr, "unknown sub %s\n", subn.c_str());
      return 2;
    }
    std::vector<uint32_t> c;
    std::istringstream ci(ch);
    uint32_t v;
    while (ci >> v) c.push_back(v);
    if (getenv("PBT_NOFORK")) {
      if (property.start) property.start();
      Result r = run_case(property.subs[si], &c, nullptr, true);
      printf("%s\n%s %s\n", r.log.c_str(), r.tag.c_str(), r.msg.c_str());
      return r.o == FAILED;
    }
    Result r;
    std::string log;
    char errp[] = "/tmp/pbterrXXXXXX", logp[] = "/tmp/pbtlogXXXXXX";
    close(mkstemp(errp));
    close(mkstemp(logp));
    bool bad = forked(property.subs[si], si, c, errp, r, 60, true, &log, logp);
    std::string err = slurp(errp);
    unlink(errp);
    unlink(logp);
    printf("%s\n", log.c_str());
    if (err.size() > 6000) err = err.substr(0, 6000);
    printf("--- stderr of the case\n%s\n", err.c_str());
    if (bad) {
      printf("REPRODUCED tag=%s\n%s\n", r.tag.c_str(), r.msg.c_str());
      return 1;
    }
    printf("not reproduced\n");
    return 0;
  }

  double t0 = now();
  std::vector<Slot*> slots;
  std::vector<pid_t> pids;
  std::vector<double> since((size_t)o.workers, t0);
  std::vector<uint64_t> lastseq((size_t)o.workers, 0);
  std::vector<int> state((size_t)o.workers, 0);  // 0 running 1 ok 2 failed
  std::vector<bool> hang((size_t)o.workers, false);
  std::vector<double> cpu0((size_t)o.workers, 0);  // processor time when the case began
  for (int w = 0; w < o.workers; w++) {
    slots.push_back(mkslot());
    char b[32];
    snprintf(b, sizeof b, "/w%d", w);
    pid_t p = fork();
    if (p == 0) {
      quiet_fds(nullptr);
      worker(o, w, slots[(size_t)w], o.scratch + b, -1);
      _exit(0);
    }
    pids.push_back(p);
  }
  int running = o.workers, failed = -1;
  while (running > 0) {
    int st;
    pid_t p = waitpid(-1, &st, WNOHANG);
    if (p > 0) {
      for (int w = 0; w < o.workers; w++)
        if (pids[(size_t)w] == p && state[(size_t)w] == 0) {
          running--;
          bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
          state[(size_t)w] = ok ? 1 : 2;
          if (!ok && failed < 0) failed = w;
        }
      if (failed >= 0) break;
      continue;
    }
    double t = now();
    for (int w = 0; w < o.workers; w++) {
      uint64_t s = slots[(size_t)w]->seq.load();
      if (s != lastseq[(size_t)w]) {
        lastseq[(size_t)w] = s;
        since[(size_t)w] = t;
        cpu0[(size_t)w] = cpu_of(pids[(size_t)w]);
      } else if (state[(size_t)w] == 0 && t - since[(size_t)w] > 30 && s > 0 &&
                 !slots[(size_t)w]->done &&
                 (t - since[(size_t)w] > 200 || cpu_of(pids[(size_t)w]) - cpu0[(size_t)w] > 20)) {
        hang[(size_t)w] = true;
        kill(pids[(size_t)w], SIGKILL);
        since[(size_t)w] = t + 1000;
      }
    }
    usleep(20000);
  }
  if (failed >= 0)
    for (int w = 0; w < o.workers; w++)
      if (state[(size_t)w] == 0) {
        kill(pids[(size_t)w], SIGKILL);
        int st;
        waitpid(pids[(size_t)w], &st, 0);
      }

  // ---- statistics
  long evals = 0;
  std::vector<long> did(property.subs.size(), 0), nt(property.subs.size(), 0),
      disc(property.subs.size(), 0);
  std::map<std::string, long> labels;
  std::unordered_set<uint64_t> distinct;
  std::vector<uint8_t> cov;
  std::vector<std::string> samples;
  if (failed < 0)
    for (int w = 0; w < o.workers; w++) {
      char b[32];
      snprintf(b, sizeof b, "/w%d", w);
      std::string base = o.scratch + b;
      std::istringstream in(slurp(base + ".stats"));
      std::string line;
      while (std::getline(in, line)) {
        long a;
        size_t i;
        long x, y, z;
        int off;
        if (sscanf(line.c_str(), "evals %ld", &a) == 1)
          evals += a;
        else if (sscanf(line.c_str(), "sub %zu %ld %ld %ld", &i, &x, &y, &z) == 4) {
          did[i] += x;
          nt[i] += y;
          disc[i] += z;
        } else if (sscanf(line.c_str(), "label %ld %n", &a, &off) >= 1)
          labels[line.substr((size_t)off)] += a;
      }
      std::string h = slurp(base + ".hash");
      for (size_t i = 0; i + 8 <= h.size(); i += 8) {
        uint64_t v;
        memcpy(&v, h.data() + i, 8);
        distinct.insert(v);
      }
      std::string cv = slurp(base + ".cov");
      if (cov.size() < cv.size()) cov.resize(cv.size());
      for (size_t i = 0; i < cv.size(); i++) cov[i] |= (uint8_t)cv[i];
      std::string sm = slurp(base + ".samples");
      size_t pos = 0;
      while (pos < sm.size()) {
        std::string one = sm.c_str() + pos;
        pos += one.size() + 1;
        if (w == 0) samples.push_back(one);
      }
    }
  int rc = 0;
  std::string vio = "null";
  if (failed >= 0) {
    Slot* sl = slots[(size_t)failed];
    int si = (int)sl->sub;
    std::vector<uint32_t> ch(sl->c, sl->c + std::min<uint32_t>(sl->n, MAXC));
    fprintf(stderr, "worker %d failed in sub-check %s at case %llu: %s\n", failed,
            property.subs[(size_t)si].name, (unsigned long long)sl->index,
            hang[(size_t)failed] ? "hang" : sl->failed ? sl->tag : "crash");
    if (getenv("PBT_FAST")) return 1;
    Result r;
    bool rep = forked(property.subs[(size_t)si], si, ch, nullptr, r, 30);
    std::string path;
    mkdir(o.replaydir.c_str(), 0755);
    if (rep) {
      std::string tag = r.tag;
      long attempts = 0;
      std::vector<uint32_t> best =
          shrink(property.subs[(size_t)si], si, ch, tag, o.thorough ? 120 : 40, attempts);
      std::string err, log;
      Result q;
      int again = 0;
      for (int i = 0; i < 3; i++) {
        log.clear();
        if (forked(property.subs[(size_t)si], si, best, (o.scratch + "/err").c_str(), q, 30, true,
                   &log, (o.scratch + "/log").c_str()))
          again++;
      }
      if (again < 3) {
        best = ch;
        again = 0;
        for (int i = 0; i < 3; i++) {
          log.clear();
          if (forked(property.subs[(size_t)si], si, best, (o.scratch + "/err").c_str(), q, 30,
                     true, &log, (o.scratch + "/log").c_str()))
            again++;
        }
      }
      if (again == 3) {
        err = slurp(o.scratch + "/err");
        if (err.size() > 5000) err = err.substr(0, 5000);
        uint64_t h = hash_choices(si, best.data(), (uint32_t)best.size());
        char nm[128];
        snprintf(nm, sizeof nm, "/%s-%s-%08lx.replay", property.id,
                 property.subs[(size_t)si].name, (unsigned long)(h & 0xffffffff));
        path = o.replaydir + nm;
        FILE* f = fopen(path.c_str(), "w");
        if (f) {
          fprintf(f, "property: %s\nsub: %s\ntag: %s\nmessage: %s\nchoices:", property.id,
                  property.subs[(size_t)si].name, q.tag.c_str(), q.msg.c_str());
          for (uint32_t v : best) fprintf(f, " %u", v);
          fprintf(f, "\nshrunk from %zu to %zu choices in %ld attempts\n--- case\n%s\n--- stderr\n%s\n",
                  ch.size(), best.size(), attempts, log.c_str(), err.c_str());
          fclose(f);
        }
        printf("failure: %s / %s: %s: %s\n", property.id, property.subs[(size_t)si].name,
               q.tag.c_str(), q.msg.c_str());
        printf("VIOLATION property=%s replay=%s\n", property.id, path.c_str());
        rc = 1;
        vio = jstr(path);
      }
    }
    if (rc == 0) {
      // Depends on the cases run before in the same process: replay the stream.
      int again = 0;
      Result q;
      for (int i = 0; i < 3; i++)
        if (stream_replay(failed, (long)sl->index, q)) again++;
      if (again == 3) {
        char nm[128];
        snprintf(nm, sizeof nm, "/%s-stream-%d-%llu.replay", property.id, failed,
                 (unsigned long long)sl->index);
        path = o.replaydir + nm;
        FILE* f = fopen(path.c_str(), "w");
        if (f) {
          fprintf(f,
                  "property: %s\nstream: seed=%llu worker=%d index=%llu thorough=%d workers=%d "
                  "scale=%f\ntag: %s\nmessage: %s\n",
                  property.id, (unsigned long long)o.seed, failed, (unsigned long long)sl->index,
                  o.thorough ? 1 : 0, o.workers, o.scale, q.tag.c_str(), q.msg.c_str());
          fclose(f);
        }
        printf("VIOLATION property=%s replay=%s\n", property.id, path.c_str());
        rc = 1;
        vio = jstr(path);
      } else {
        fprintf(stderr, "the failure did not reproduce (%d of 3): %s %s\n", again, sl->tag, sl->msg);
        rc = 3;
      }
    }
    evals = 0;
    for (auto* s : slots) evals += (long)s->seq.load();
  }
  // ---- report
  if (!o.out.empty()) {
    FILE* f = fopen(o.out.c_str(), "w");
    if (!f) return 3;
    long hit = 0;
    for (uint8_t c : cov) hit += c != 0;
    fprintf(f, "{\"evaluations\": %ld, \"distinct_nontrivial\": %zu, \"rule\": %s,\n", evals,
            distinct.size(), jstr(property.rule).c_str());
    fprintf(f, "\"edges_hit\": %ld, \"edges_total\": %zu, \"violation\": %s,\n", hit, cov.size(),
            vio.c_str());
    fprintf(f, "\"sub_checks\": {");
    for (size_t i = 0; i < property.subs.size(); i++)
      fprintf(f, "%s%s: {\"cases\": %ld, \"nontrivial\": %ld, \"discarded\": %ld}", i ? ", " : "",
              jstr(property.subs[i].name).c_str(), did[i], nt[i], disc[i]);
    fprintf(f, "},\n\"distribution\": {");
    bool first = true;
    for (auto& l : labels) {
      fprintf(f, "%s%s: %ld", first ? "" : ", ", jstr(l.first).c_str(), l.second);
      first = false;
    }
    fprintf(f, "},\n\"samples\": [");
    for (size_t i = 0; i < samples.size() && i < 12; i++)
      fprintf(f, "%s%s", i ? ",\n" : "", jstr(samples[i]).c_str());
    fprintf(f, "]}\n");
    fclose(f);
  }
  return rc;
}

int main(int argc, char** argv) { return pbt::engine_main(argc, argv); }

// ---------------------------------------------------------------- a process without history
namespace {
struct Request {
  std::string (*fn)(Src&, int);
  int arg;
  uint32_t n;
};
}  // namespace
void pbt::pristine_start() {
  int p[2];
  if (socketpair(AF_UNIX, SOCK_STREAM, 0, p)) {
    perror("socketpair");
    _exit(3);
  }
  pid_t c = fork();
  if (c) {
    close(p[1]);
    g_prist = p[0];
    return;
  }
  close(p[0]);
  struct itimerval off = {{0, 0}, {0, 0}};
  setitimer(ITIMER_PROF, &off, nullptr);
  alarm(0);
  Slot* own = (Slot*)__real_calloc(1, sizeof(Slot));
  g_slot = own;
  g_labels = nullptr;
  Request q;
  while (full_read(p[1], &q, sizeof q)) {
    std::vector<uint32_t> ch(q.n);
    if (q.n && !full_read(p[1], ch.data(), q.n * sizeof(uint32_t))) break;
    pid_t k = fork();
    if (k == 0) {
      std::string r;
      {
        g_in_case = true;
        try {
          Src s(&ch, nullptr);
          r = q.fn(s, q.arg);
        } catch (...) {
          _exit(4);
        }
        g_in_case = false;
      }
      uint64_t n = r.size();
      full_write(p[1], &n, sizeof n);
      full_write(p[1], r.data(), r.size());
      _exit(0);
    }
    int st = 0;
    while (waitpid(k, &st, 0) < 0 && errno == EINTR) {
    }
    if (!WIFEXITED(st) || WEXITSTATUS(st)) {
      uint64_t n = ~0ull;
      full_write(p[1], &n, sizeof n);
    }
  }
  _exit(0);
}
bool pbt::pristine(std::string (*fn)(Src&, int), int arg, std::string& result) {
  Request q = {fn, arg, g_slot->n};
  uint64_t n = 0;
  if (!full_write(g_prist, &q, sizeof q) || !full_write(g_prist, g_slot->c, q.n * sizeof(uint32_t)) ||
      !full_read(g_prist, &n, sizeof n))
    fail("harness", "the process without history is gone");
  if (n == ~0ull) return false;
  result.resize(n);
  if (n && !full_read(g_prist, &result[0], n)) fail("harness", "the process without history is gone");
  return true;
}
