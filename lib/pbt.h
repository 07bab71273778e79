// Property-based testing engine for the openscop checks.
//
// A case is produced by drawing bounded choices from a Src. The sequence of choices is the
// case: it can be replayed, mutated (coverage guidance) and shrunk. 0 is always the
// simplest choice.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  uint32_t below(uint32_t n) { return n ? (uint32_t)((next() >> 11) % n) : 0; }
};

struct Fail {
  std::string tag, msg;
};
struct Discard {};
struct OslExit {
  int code;
};

class Src {
 public:
  // Draws from `prefix` first, then from rng (or zeros when rng is null).
  Src(const std::vector<uint32_t>* prefix, Rng* rng);
  uint32_t below(uint32_t n);  // uniform in [0,n)
  int range(int lo, int hi) { return lo + (int)below((uint32_t)(hi - lo + 1)); }
  bool pct(unsigned p) { return below(100) >= 100 - p; }  // true p% of the time; 0 = false
  bool flip() { return below(2) == 1; }
  uint64_t u64();
  // 0..max, biased to small values
  int small(int max);
  // the same, but once in a while well over max (up to max + over); 0 stays 0
  int sized(int max, int over);
  template <class T>
  const T& pick(const std::vector<T>& v) {
    return v[below((uint32_t)v.size())];
  }
  size_t drawn() const { return n_; }

 private:
  const std::vector<uint32_t>* pre_;
  Rng* rng_;
  size_t n_;
};

struct Case {
  Src s;
  bool nontrivial = false;
  bool leak_exempt = false;  // set when an (expected) error exit happened in the library
  std::ostringstream log;    // human rendering of the case
  bool rendering = false;    // only build expensive renderings when true
  Case(const std::vector<uint32_t>* p, Rng* r) : s(p, r) {}
};

void label(const std::string& l);  // counts distribution of cases
[[noreturn]] void fail(const std::string& tag, const std::string& msg);
[[noreturn]] void discard();

#define CHECK(cond, tag, msg)                \
  do {                                       \
    if (!(cond)) {                           \
      std::ostringstream o_;                 \
      o_ << msg;                             \
      pbt::fail(tag, o_.str());              \
    }                                        \
  } while (0)

// Runs f, which is expected to end in the library's error exit; returns true if it did.
bool exits(const std::function<void()>& f);
// Expect no exit: just call f.

struct Sub {
  const char* name;
  void (*fn)(Case&);
  long quick;     // cases in the quick tier (over all workers)
  long thorough;  // cases in the thorough tier
  bool leaks;     // check that the case leaves nothing allocated
};

struct Property {
  const char* id;
  const char* rule;
  std::vector<Sub> subs;
  // Called once in every process before any case.
  void (*init)() = nullptr;
  // Called in every process that runs cases, just before the first one.
  void (*start)() = nullptr;
};

// Defined by each props/*.cpp
extern Property property;

// When not 0, allocations that would bring the live total of the process over this many bytes
// fail, and what a case with an error exit left allocated is released after it.
extern size_t alloc_limit;

// When set, the allocations of this thread are not recorded in the ledger (which is for one
// thread only).
extern thread_local bool raw_alloc;

// The allocations of this thread, and the one among them that fails (0: none).
extern thread_local long alloc_count, alloc_fail;
extern thread_local void* alloc_failed;  // where the last one that failed was asked for

// A process that never runs a case: it forks a child for every request, which draws the choices
// of the current case again and runs `fn` on them; the result comes back. Thus `fn` sees the
// library as it is at the start of a program.
void pristine_start();  // from Property::start
// false when the child crashed
bool pristine(std::string (*fn)(Src&, int), int arg, std::string& result);

// Memory ledger (C allocations made by the library and by harness C calls).
size_t live_allocs();

int engine_main(int argc, char** argv);

}  // namespace pbt
