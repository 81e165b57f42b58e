// Choice-sequence property-based testing engine.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>

namespace eng {

// Thrown by a property when the code under test breaks it.  Not derived from std::exception on purpose:
// handlers for the library's exceptions must not swallow it.
struct Fail {
  std::string msg;
};
// Thrown when the machinery itself cannot work (exit code 2, never a violation).
struct HarnessError {
  std::string msg;
};

struct Shared; // choice record in shared memory

// Source of every random decision of one case.
class Src {
public:
  Src(uint64_t seed, Shared *rec);
  Src(const std::vector<uint64_t> &replay, Shared *rec);
  // uniform in [0,max]
  uint64_t draw(uint64_t max);
  uint64_t range(uint64_t lo, uint64_t hi) { return lo >= hi ? lo : lo + draw(hi - lo); }
  bool chance(unsigned num, unsigned den) { return draw(den - 1) >= den - num; } // shrinks towards false
  bool flip() { return draw(1); }
  // small values are much more likely than large ones
  uint64_t skewed(uint64_t max);
  uint64_t bits64();
  template <typename T> const T &pick(const std::vector<T> &v) { return v[draw(v.size() - 1)]; }
  template <typename T, size_t N> const T &pick(const T (&v)[N]) { return v[draw(N - 1)]; }
  std::string bytes(size_t n);
  std::string text(size_t n, const char *alphabet) { return text(n, std::string(alphabet)); }
  std::string text(size_t n, const std::string &alphabet);
  size_t drawn() const { return n_; }

private:
  uint64_t next();
  uint64_t s_[2];
  const std::vector<uint64_t> *replay_{nullptr};
  size_t pos_{0}, n_{0};
  Shared *rec_;
};

struct Ctx {
  bool nontrivial{false};
  bool want_sample{false};
  bool verbose{false}; // replay: print the trace of the case
  uint64_t hash{1469598103934665603ull};
  std::string sample;
  std::vector<std::string> labels;
  std::map<std::string, std::string> artifacts; // name -> content, dumped next to the replay file
  std::vector<std::string> known_hits;

  void label(const std::string &l) { labels.push_back(l); }
  void label_if(bool b, const std::string &l) {
    if (b)
      labels.push_back(l);
  }
  void mix(const void *p, size_t n) {
    const auto *b = static_cast<const unsigned char *>(p);
    for (size_t i = 0; i < n; ++i)
      hash = (hash ^ b[i]) * 1099511628211ull;
  }
  void mix(const std::string &s) { mix(s.data(), s.size()); }
  void mix(uint64_t x) { mix(&x, sizeof x); }
  // A recorded (not repaired) defect: true if it is listed in known_findings.json
  bool known(const std::string &key);
};

using Prop = std::function<void(Src &, Ctx &)>;

struct PropDef {
  std::string id;       // property id
  std::string variant;  // plain / asan / tsan: the build this sub-check needs
  std::string name;     // sub-check name
  std::string rule;     // how cases are made, what is non-trivial
  size_t quick;         // cases in the quick tier
  size_t thorough;      // cases in the thorough tier
  unsigned cpu_limit;   // CPU seconds a single case may take
  Prop fn;
  unsigned max_workers{0};          // 0: all cores
  bool exhaustive{false};           // fn enumerates by ctx index (case index is the first draw)
};

void add(PropDef d);
uint64_t case_index(); // index of the running case (for enumerating sub-checks)
const std::string &scratch_dir();
const std::string &repo_dir();
std::string param(const std::string &key, const std::string &dflt = "");
bool thorough();

std::string hex(const std::string &s, size_t max = 64);
std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

} // namespace eng

// Allocation control (alloc.cpp)
namespace memctl {
extern size_t limit;               // single allocations above this throw std::bad_alloc
extern int fill;                   // -1: none, else byte used to fill fresh memory
extern thread_local bool counting; // count allocations of this thread
extern thread_local long live;     // net allocated blocks while counting
extern thread_local long live_bytes;
extern thread_local long peak_bytes;
extern thread_local long n_allocs;
extern thread_local long fail_at; // >0: the fail_at-th counted allocation throws
void reset();
struct Scope { // counts in this scope
  bool prev;
  Scope() : prev(counting) { counting = true; }
  ~Scope() { counting = prev; }
};
struct Pause {
  bool prev;
  Pause() : prev(counting) { counting = false; }
  ~Pause() { counting = prev; }
};
} // namespace memctl
