#include "engine.hpp"
#include <algorithm>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <nlohmann/json.hpp>
#include <set>
#include <signal.h>
#include <spdlog/spdlog.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>

namespace eng {
using json = nlohmann::json;

constexpr size_t CAP = size_t(1) << 20;
struct Shared {
  volatile size_t n;
  volatile uint64_t index;
  volatile int phase; // 0 idle, 1 in case
  volatile uint64_t done;
  char msg[4096];
  uint64_t val[CAP];
};

static uint64_t splitmix(uint64_t &x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

Src::Src(uint64_t seed, Shared *rec) : rec_(rec) {
  s_[0] = splitmix(seed);
  s_[1] = splitmix(seed);
  if (rec_)
    rec_->n = 0;
}
Src::Src(const std::vector<uint64_t> &replay, Shared *rec) : s_{0, 0}, replay_(&replay), rec_(rec) {
  if (rec_)
    rec_->n = 0;
}
uint64_t Src::next() { // xoroshiro128+
  const uint64_t s0 = s_[0];
  uint64_t s1 = s_[1];
  const uint64_t r = s0 + s1;
  s1 ^= s0;
  s_[0] = ((s0 << 24) | (s0 >> 40)) ^ s1 ^ (s1 << 16);
  s_[1] = (s1 << 37) | (s1 >> 27);
  return r;
}
uint64_t Src::draw(uint64_t max) {
  uint64_t v;
  if (replay_) {
    v = pos_ < replay_->size() ? (*replay_)[pos_] : 0;
    ++pos_;
    if (v > max)
      v = max;
  } else {
    const uint64_t r = next();
    v = max == ~0ull ? r : uint64_t((static_cast<unsigned __int128>(r) * (static_cast<unsigned __int128>(max) + 1)) >> 64);
  }
  if (rec_ && n_ < CAP) {
    rec_->val[n_] = v;
    rec_->n = n_ + 1;
  }
  ++n_;
  if (n_ >= CAP)
    throw HarnessError{"a case drew too many choices"};
  return v;
}
uint64_t Src::skewed(uint64_t max) {
  const unsigned bits = max ? 64 - static_cast<unsigned>(__builtin_clzll(max)) : 0;
  const unsigned b = static_cast<unsigned>(draw(bits));
  const uint64_t hi = b >= 64 ? ~0ull : ((1ull << b) - 1);
  return draw(std::min(hi, max));
}
uint64_t Src::bits64() { return draw(~0ull); }
std::string Src::bytes(size_t n) {
  std::string r;
  r.reserve(n);
  while (r.size() + 8 <= n) {
    const uint64_t x = bits64();
    r.append(reinterpret_cast<const char *>(&x), 8);
  }
  while (r.size() < n)
    r.push_back(static_cast<char>(draw(255)));
  return r;
}
std::string Src::text(size_t n, const std::string &a) {
  const size_t m = a.size();
  std::string r;
  for (size_t i = 0; i < n; ++i)
    r.push_back(a[draw(m - 1)]);
  return r;
}

static std::vector<PropDef> &defs() {
  static std::vector<PropDef> d;
  return d;
}
void add(PropDef d) { defs().push_back(std::move(d)); }

struct Options {
  std::string prop, variant, tier{"quick"}, out, scratch, replay, repo{"/repo"}, replay_out, sub;
  uint64_t seed{1};
  double budget{300};
  double scale{1.0};
  unsigned workers{8};
  std::set<std::string> known;
  std::map<std::string, std::string> params;
};
static Options opt;
static uint64_t g_index = 0;

uint64_t case_index() { return g_index; }
const std::string &scratch_dir() { return opt.scratch; }
const std::string &repo_dir() { return opt.repo; }
bool thorough() { return opt.tier == "thorough"; }
std::string param(const std::string &k, const std::string &d) {
  auto it = opt.params.find(k);
  return it == opt.params.end() ? d : it->second;
}
bool Ctx::known(const std::string &key) {
  if (!opt.known.count(key))
    return false;
  known_hits.push_back(key);
  return true;
}

std::string hex(const std::string &s, size_t max) {
  std::string r;
  char b[4];
  for (size_t i = 0; i < s.size() && i < max; ++i) {
    snprintf(b, sizeof b, "%02x", static_cast<unsigned char>(s[i]));
    r += b;
  }
  if (s.size() > max)
    r += "...(" + std::to_string(s.size()) + " bytes)";
  return r;
}
std::string strf(const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  char buf[2048];
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  return buf;
}

static double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return double(t.tv_sec) + 1e-9 * double(t.tv_nsec);
}
static uint64_t mix_seed(const PropDef &d, uint64_t index) {
  uint64_t h = 0xcbf29ce484222325ull ^ (opt.seed * 0x9e3779b97f4a7c15ull);
  for (char c : d.id + "/" + d.name)
    h = (h ^ static_cast<unsigned char>(c)) * 1099511628211ull;
  h ^= index * 0xd6e8feb86659fd93ull;
  uint64_t x = h;
  splitmix(x);
  return splitmix(x);
}
// CPU limit, and a generous wall-clock limit for cases that block
static void arm(unsigned secs) {
  itimerval t{};
  t.it_value.tv_sec = secs;
  setitimer(ITIMER_PROF, &t, nullptr);
  t.it_value.tv_sec = secs ? std::max<long>(60, 6 * static_cast<long>(secs)) : 0;
  setitimer(ITIMER_REAL, &t, nullptr);
}
static Shared *map_shared() {
  void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED)
    throw HarnessError{"mmap"};
  return static_cast<Shared *>(p);
}
static std::string slurp(const std::string &f) {
  std::ifstream is(f, std::ios::binary);
  std::stringstream ss;
  ss << is.rdbuf();
  return ss.str();
}
static void spit(const std::string &f, const std::string &s) {
  std::ofstream os(f, std::ios::binary);
  os << s;
}

enum : int { EXIT_FAIL = 77, EXIT_HARNESS = 78 };

// Runs one case; returns false and the message if it failed
static bool run_case(const PropDef &d, Src &src, Ctx &ctx, std::string &msg) {
  static const int fills[] = {0xa5, 0x00, 0xff, 0x41};
  memctl::fill = fills[g_index % 4]; // what fresh memory holds is part of the case
  memctl::limit = size_t(256) << 20;
  arm(d.cpu_limit);
  bool ok = true;
  try {
    d.fn(src, ctx);
  } catch (const Fail &f) {
    msg = f.msg;
    ok = false;
  } catch (const HarnessError &) {
    arm(0);
    throw;
  } catch (const std::exception &e) {
    msg = std::string("unexpected exception: ") + e.what();
    ok = false;
  }
  arm(0);
  return ok;
}

static void redirect_stderr(const std::string &f) {
  const int fd = ::open(f.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
  if (fd >= 0) {
    dup2(fd, 2);
    close(fd);
  }
}

// Outcome of a child
struct Outcome {
  bool failed{false}, hang{false}, crash{false}, harness{false};
  std::string msg;
  std::vector<uint64_t> choices;
};

static Outcome decode(int st, Shared *sh, const std::string &errfile) {
  Outcome o;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
    return o;
  o.choices.assign(const_cast<uint64_t *>(sh->val), const_cast<uint64_t *>(sh->val) + sh->n);
  if (WIFEXITED(st) && WEXITSTATUS(st) == EXIT_FAIL) {
    o.failed = true;
    o.msg = sh->msg;
    return o;
  }
  if (WIFEXITED(st) && WEXITSTATUS(st) == EXIT_HARNESS) {
    o.harness = true;
    o.msg = sh->msg;
    return o;
  }
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF) {
    o.failed = o.hang = true;
    o.msg = "the case did not finish within its CPU limit (typical cases take milliseconds)";
    return o;
  }
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) {
    o.failed = o.hang = true;
    o.msg = "the case blocked: it did not finish within its generous wall-clock limit (typical cases take milliseconds)";
    return o;
  }
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { // memory guard of the sandbox: no verdict
    o.harness = true;
    o.msg = "worker was killed";
    return o;
  }
  o.failed = o.crash = true;
  if (WIFSIGNALED(st))
    o.msg = std::string("the process was ended by signal ") + std::to_string(WTERMSIG(st)) + " (" + strsignal(WTERMSIG(st)) + ")";
  else
    o.msg = "the process exited with status " + std::to_string(WEXITSTATUS(st));
  const auto err = slurp(errfile);
  // the interesting part of a sanitizer report / terminate message
  std::istringstream is(err);
  std::string line;
  int n = 0;
  while (std::getline(is, line) && n < 400) {
    ++n;
    for (const char *k : {"ERROR: ", "runtime error", "WARNING: ThreadSanitizer", "terminate called", "what():", "SUMMARY", "#0 ", "#1 ", "#2 ", "#3 ", "#4 "})
      if (line.find(k) != line.npos) {
        if (o.msg.size() < 1500)
          o.msg += "\n    " + line.substr(0, 220);
        break;
      }
  }
  return o;
}

// Runs in a child the case given by its choices, or, with history > 0, the generated cases
// index - history * stride, ..., index in one process.
static Outcome run_child(const PropDef &d, const std::vector<uint64_t> &choices, uint64_t index, Shared *sh, unsigned cpu, uint64_t history = 0, uint64_t stride = 1) {
  const std::string errfile = opt.scratch + "/shrink.err";
  sh->n = 0;
  sh->msg[0] = 0;
  fflush(nullptr);
  const pid_t pid = fork();
  if (pid < 0)
    throw HarnessError{"fork"};
  if (pid == 0) {
    setpgid(0, 0);
    redirect_stderr(errfile);
    g_index = index;
    PropDef dd = d;
    dd.cpu_limit = cpu;
    int rc = 0;
    try {
      std::string msg;
      if (history) {
        for (uint64_t i = index - history * stride; i <= index && !rc; i += stride) {
          g_index = i;
          Src src(mix_seed(d, i), sh);
          Ctx ctx;
          if (!run_case(dd, src, ctx, msg)) {
            snprintf(sh->msg, sizeof sh->msg, "%s", msg.c_str());
            rc = EXIT_FAIL;
          }
        }
      } else {
        Src src(choices, sh);
        Ctx ctx;
        if (!run_case(dd, src, ctx, msg)) {
          snprintf(sh->msg, sizeof sh->msg, "%s", msg.c_str());
          rc = EXIT_FAIL;
        }
      }
    } catch (const HarnessError &e) {
      snprintf(sh->msg, sizeof sh->msg, "%s", e.msg.c_str());
      rc = EXIT_HARNESS;
    }
    _exit(rc);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  kill(-pid, SIGKILL); // driver processes of the case
  return decode(st, sh, errfile);
}

static bool simpler(const std::vector<uint64_t> &a, const std::vector<uint64_t> &b) {
  return a.size() != b.size() ? a.size() < b.size() : a < b;
}

static Outcome shrink(const PropDef &d, Outcome best, uint64_t index, double seconds) {
  Shared *sh = map_shared();
  const double end = now() + seconds;
  unsigned attempts = 0;
  const unsigned cpu = best.hang ? std::min(d.cpu_limit, 5u) : d.cpu_limit;
  const unsigned max_attempts = best.hang ? 15 : 4000;
  auto attempt = [&](const std::vector<uint64_t> &c) {
    if (attempts >= max_attempts || now() > end)
      return false;
    ++attempts;
    Outcome o = run_child(d, c, index, sh, cpu);
    if (!o.failed || (o.hang && !best.hang))
      return false;
    if (!simpler(o.choices, best.choices))
      return false;
    best = o;
    return true;
  };
  // the recorded sequence normalised by replaying it
  bool progress = true;
  while (progress && attempts < max_attempts && now() < end) {
    progress = false;
    for (size_t k : {size_t(512), size_t(128), size_t(32), size_t(16), size_t(8), size_t(5), size_t(4), size_t(3), size_t(2), size_t(1)}) {
      for (size_t i = best.choices.size(); i-- > 0;) {
        if (i + k > best.choices.size())
          continue;
        if (now() > end)
          break;
        auto c = best.choices;
        c.erase(c.begin() + static_cast<long>(i), c.begin() + static_cast<long>(i + k));
        if (attempt(c)) {
          progress = true;
          continue;
        }
        if (i > 0 && c.size() && i - 1 < c.size() && c[i - 1] > 0) { // deletion together with a smaller count before
          --c[i - 1];
          if (attempt(c))
            progress = true;
        }
      }
    }
    for (size_t k : {size_t(64), size_t(16), size_t(4), size_t(1)}) {
      for (size_t i = 0; i + k <= best.choices.size(); i += k) {
        auto c = best.choices;
        bool nz = false;
        for (size_t j = i; j < i + k; ++j) {
          nz |= c[j] != 0;
          c[j] = 0;
        }
        if (nz && attempt(c))
          progress = true;
      }
    }
    for (size_t i = 0; i < best.choices.size(); ++i) {
      uint64_t lo = 0; // fails to fail
      while (i < best.choices.size() && best.choices[i] > lo + 1 && now() < end) {
        const uint64_t mid = lo + (best.choices[i] - lo) / 2;
        auto c = best.choices;
        c[i] = mid;
        if (attempt(c))
          progress = true;
        else
          lo = mid;
      }
    }
  }
  munmap(sh, sizeof(Shared));
  return best;
}

struct WorkerResult {
  uint64_t evaluations{0};
  std::vector<uint64_t> hashes;
  std::map<std::string, uint64_t> labels;
  std::map<std::string, uint64_t> known;
  std::vector<std::string> samples;
};

static void worker(const PropDef &d, uint64_t first, unsigned nw, size_t ncases, Shared *sh, double end, const std::string &base) {
  redirect_stderr(base + ".err");
  WorkerResult r;
  std::set<uint64_t> hashes;
  int rc = 0;
  try {
    for (uint64_t i = first; i < ncases; i += nw) {
      if (now() > end)
        break;
      g_index = i;
      sh->index = i;
      sh->phase = 1;
      Src src(mix_seed(d, i), sh);
      Ctx ctx;
      ctx.want_sample = i < 6;
      std::string msg;
      const bool ok = run_case(d, src, ctx, msg);
      sh->phase = 0;
      ++r.evaluations;
      if (!ok) {
        snprintf(sh->msg, sizeof sh->msg, "%s", msg.c_str());
        rc = EXIT_FAIL;
        break;
      }
      if (ctx.nontrivial && hashes.size() < 400000)
        hashes.insert(ctx.hash);
      for (auto &l : ctx.labels)
        ++r.labels[l];
      for (auto &l : ctx.known_hits)
        ++r.known[l];
      if (!ctx.sample.empty() && r.samples.size() < 2)
        r.samples.push_back(ctx.sample);
    }
  } catch (const HarnessError &e) {
    snprintf(sh->msg, sizeof sh->msg, "%s", e.msg.c_str());
    rc = EXIT_HARNESS;
  }
  json j;
  j["evaluations"] = r.evaluations;
  j["hashes"] = std::vector<uint64_t>(hashes.begin(), hashes.end());
  j["labels"] = r.labels;
  j["known"] = r.known;
  j["samples"] = r.samples;
  spit(base + ".json", j.dump(-1, ' ', true, json::error_handler_t::replace));
  _exit(rc);
}

static std::string write_replay(const PropDef &d, const Outcome &o, uint64_t index, uint64_t history = 0, uint64_t stride = 1) {
  // re-run in a child to produce the artifacts
  std::string base = opt.replay_out + "/" + d.id + "-" + d.name;
  std::ofstream os(base + ".replay");
  os << "property " << d.id << "\ncheck " << d.name << "\nvariant " << d.variant << "\nseed " << opt.seed << "\nindex " << index << "\n";
  std::string m = o.msg;
  std::replace(m.begin(), m.end(), '\n', ' ');
  if (history)
    os << "history " << history << " " << stride << "\n";
  os << "# " << m << "\nchoices";
  for (auto v : o.choices)
    os << ' ' << v;
  os << "\n";
  os.close();
  fflush(nullptr);
  const pid_t pid = fork();
  if (pid == 0) {
    setpgid(0, 0);
    redirect_stderr(opt.scratch + "/artifact.err");
    struct Dump {
      Ctx ctx;
    };
    static Ctx ctx;
    static std::string bb = base;
    if (history)
      _exit(0);
    auto dump = +[](int sig) {
      for (auto &[n, c] : ctx.artifacts)
        spit(bb + "." + n, c);
      _exit(sig ? 1 : 0);
    };
    for (int s : {SIGABRT, SIGSEGV, SIGPROF, SIGALRM, SIGBUS, SIGFPE, SIGILL})
      signal(s, dump);
    ctx.want_sample = true;
    g_index = index;
    try {
      Src src(o.choices, nullptr);
      std::string msg;
      run_case(d, src, ctx, msg);
      if (!ctx.sample.empty())
        ctx.artifacts["txt"] = msg + "\n" + ctx.sample + "\n";
      else
        ctx.artifacts["txt"] = msg + "\n";
    } catch (...) {
    }
    dump(0);
  }
  int st;
  waitpid(pid, &st, 0);
  kill(-pid, SIGKILL);
  return base + ".replay";
}

static json run_def(const PropDef &d) {
  const double t0 = now();
  size_t ncases = opt.tier == "thorough" ? d.thorough : d.quick;
  if (!d.exhaustive)
    ncases = std::max<size_t>(1, static_cast<size_t>(double(ncases) * opt.scale));
  unsigned nw = opt.workers;
  if (d.max_workers)
    nw = std::min(nw, d.max_workers);
  nw = static_cast<unsigned>(std::min<size_t>(nw, ncases));
  const double end = t0 + opt.budget;
  std::vector<Shared *> sh(nw);
  std::vector<uint64_t> next(nw); // first case of each worker
  for (unsigned w = 0; w < nw; ++w) {
    sh[w] = map_shared();
    next[w] = w;
  }
  json res;
  res["check"] = d.name;
  res["variant"] = d.variant;
  res["rule"] = d.rule;
  uint64_t ev = 0;
  std::set<uint64_t> hashes;
  std::map<std::string, uint64_t> labels, known;
  std::vector<std::string> samples;
  bool complete = true;
  unsigned unreproduced = 0, restarts = 0;
  Shared *s2 = map_shared();
  // A failure that does not come again is noted, and the search goes on after it
  for (bool more = true; more;) {
    more = false;
    std::vector<pid_t> pids(nw, 0);
    fflush(nullptr);
    for (unsigned w = 0; w < nw; ++w) {
      const std::string base = opt.scratch + "/" + d.name + "." + std::to_string(w);
      ::unlink((base + ".json").c_str());
      sh[w]->index = next[w];
      const pid_t pid = fork();
      if (pid < 0)
        throw HarnessError{"fork"};
      if (pid == 0) {
        setpgid(0, 0);
        worker(d, next[w], nw, ncases, sh[w], end, base);
      }
      pids[w] = pid;
    }
    std::vector<std::pair<uint64_t, Outcome>> fails;
    std::string harness_msg;
    unsigned left = nw;
    while (left) {
      int st = 0;
      const pid_t p = waitpid(-1, &st, 0);
      if (p < 0)
        break;
      for (unsigned w = 0; w < nw; ++w)
        if (pids[w] == p) {
          --left;
          kill(-p, SIGKILL);
          pids[w] = 0;
          Outcome o = decode(st, sh[w], opt.scratch + "/" + d.name + "." + std::to_string(w) + ".err");
          if (o.harness)
            harness_msg = o.msg;
          if (o.failed) {
            fails.emplace_back(sh[w]->index, o);
            for (unsigned v = 0; v < nw; ++v) // the first failure is enough
              if (pids[v])
                kill(-pids[v], SIGKILL);
            harness_msg.clear();
          }
        }
    }
    for (unsigned w = 0; w < nw; ++w) {
      const std::string f = opt.scratch + "/" + d.name + "." + std::to_string(w) + ".json";
      const auto s = slurp(f);
      const uint64_t done = (sh[w]->index - next[w]) / nw;
      json j = json::parse(s, nullptr, false);
      if (s.empty() || j.is_discarded()) {
        ev += done;
        continue;
      }
      ev += j["evaluations"].get<uint64_t>();
      for (auto &h : j["hashes"])
        hashes.insert(h.get<uint64_t>());
      for (auto &[k, v] : j["labels"].items())
        labels[k] += v.get<uint64_t>();
      for (auto &[k, v] : j["known"].items())
        known[k] += v.get<uint64_t>();
      for (auto &x : j["samples"])
        if (samples.size() < 4)
          samples.push_back(x.get<std::string>());
    }
    if (fails.empty()) {
      if (!harness_msg.empty())
        res["harness_error"] = harness_msg;
      break;
    }
    complete = false;
    auto best = *std::min_element(fails.begin(), fails.end(), [](auto &a, auto &b) { return a.first < b.first; });
    const uint64_t index = best.first;
    const Outcome orig = best.second;
    // confirm
    Outcome conf = run_child(d, orig.choices, index, s2, d.cpu_limit);
    for (int k = 0; k < 4 && !conf.failed; ++k)
      conf = run_child(d, orig.choices, index, s2, d.cpu_limit);
    uint64_t history = 0;
    if (!conf.failed) { // the failure depends on what earlier cases of the process left behind
      const uint64_t first = next[index % nw], all = (index - first) / nw;
      const double hend = now() + (unreproduced ? 15 : 60);
      for (uint64_t k = 1; all && now() < hend; k = std::min(all, 2 * k)) {
        conf = run_child(d, {}, index, s2, d.cpu_limit, k, nw);
        if (conf.failed) {
          history = k;
          break;
        }
        if (k == all)
          break;
      }
    }
    if (!conf.failed) {
      res["unreproduced"] = orig.msg;
      if (orig.hang)
        res["unreproduced_hang"] = true;
      else
        ++unreproduced;
      if (unreproduced >= 4) { // four different cases failed, none for a reason of time: what the library does is not determined by its input
        res["violation"] = orig.msg + " (four cases failed, and none of them did when run again)";
        res["case_index"] = index;
        res["replay"] = write_replay(d, orig, index);
        break;
      }
      for (unsigned w = 0; w < nw; ++w) // each goes on after the case it was at
        next[w] = w == index % nw ? index + nw : sh[w]->index;
      more = now() < end && ++restarts < 8;
    } else if (history) {
      res["violation"] = conf.msg + strf(" (the case alone passes: it fails after the %llu cases before it in the same process)", static_cast<unsigned long long>(history));
      res["case_index"] = index;
      conf.choices.clear();
      res["replay"] = write_replay(d, conf, index, history, nw);
    } else {
      if (simpler(conf.choices, orig.choices) || conf.choices == orig.choices)
        best.second = conf;
      Outcome small = shrink(d, best.second, index, d.variant == "plain" ? 25 : 40);
      Outcome again = run_child(d, small.choices, index, s2, d.cpu_limit);
      if (!again.failed)
        small = best.second;
      else
        small.msg = again.msg;
      res["violation"] = small.msg;
      res["case_index"] = index;
      res["replay"] = write_replay(d, small, index);
    }
  }
  res["evaluations"] = ev;
  res["planned"] = ncases;
  res["distinct_nontrivial"] = hashes.size();
  res["labels"] = labels;
  res["known"] = known;
  res["samples"] = samples;
  res["exhaustive"] = d.exhaustive && complete && ev == ncases;
  res["wall_s"] = now() - t0;
  return res;
}

static int replay(const std::string &file) {
  std::ifstream is(file);
  std::string line, prop, check;
  std::vector<uint64_t> choices;
  uint64_t index = 0, history = 0, stride = 1;
  while (std::getline(is, line)) {
    std::istringstream ls(line);
    std::string k;
    ls >> k;
    if (k == "property")
      ls >> prop;
    else if (k == "check")
      ls >> check;
    else if (k == "index")
      ls >> index;
    else if (k == "seed")
      ls >> opt.seed;
    else if (k == "history")
      ls >> history >> stride;
    else if (k == "choices") {
      uint64_t v;
      while (ls >> v)
        choices.push_back(v);
    }
  }
  for (auto &d : defs())
    if (d.id == prop && d.name == check) {
      Ctx ctx;
      std::string msg;
      bool ok = true;
      if (history) {
        for (uint64_t i = index - history * stride; i <= index && ok; i += stride) {
          g_index = i;
          Src src(mix_seed(d, i), nullptr);
          ctx = {};
          ctx.want_sample = ctx.verbose = true;
          ok = run_case(d, src, ctx, msg);
        }
      } else {
        g_index = index;
        Src src(choices, nullptr);
        ctx.want_sample = ctx.verbose = true;
        ok = run_case(d, src, ctx, msg);
      }
      std::cout << ctx.sample << "\n";
      if (!opt.out.empty())
        for (auto &[n, c] : ctx.artifacts)
          spit(opt.out + "." + n, c);
      std::cout << (ok ? "case passes" : "case fails: " + msg) << std::endl;
      return ok ? 0 : 1;
    }
  std::cerr << "unknown check in replay file\n";
  return 2;
}

} // namespace eng


namespace eng {
int engine_main(int argc, char **argv) {
  spdlog::set_level(spdlog::level::off);
  setenv("TZ", "VRF3:30VRS,M3.2.0,M11.1.0", 1); // not UTC, with a summer time: no value depends on it
  signal(SIGPIPE, SIG_IGN);
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop")
      opt.prop = val();
    else if (a == "--variant")
      opt.variant = val();
    else if (a == "--tier")
      opt.tier = val();
    else if (a == "--seed")
      opt.seed = std::stoull(val());
    else if (a == "--budget")
      opt.budget = std::stod(val());
    else if (a == "--scale")
      opt.scale = std::stod(val());
    else if (a == "--workers")
      opt.workers = static_cast<unsigned>(std::stoul(val()));
    else if (a == "--out")
      opt.out = val();
    else if (a == "--scratch")
      opt.scratch = val();
    else if (a == "--replays")
      opt.replay_out = val();
    else if (a == "--repo")
      opt.repo = val();
    else if (a == "--replay")
      opt.replay = val();
    else if (a == "--check")
      opt.sub = val();
    else if (a == "--known")
      opt.known.insert(val());
    else if (a == "--param") {
      const auto v = val();
      const auto p = v.find('=');
      opt.params[v.substr(0, p)] = v.substr(p + 1);
    } else {
      std::cerr << "unknown option " << a << "\n";
      return 2;
    }
  }

  try {
    if (!opt.replay.empty())
      return replay(opt.replay);
    nlohmann::json out = nlohmann::json::array();
    for (auto &d : defs()) {
      if (d.id != opt.prop || d.variant != opt.variant)
        continue;
      if (!opt.sub.empty() && d.name != opt.sub)
        continue;
      out.push_back(run_def(d));
      if (out.back().contains("violation"))
        break;
    }
    const auto s = out.dump(1, ' ', true, nlohmann::json::error_handler_t::replace);
    if (opt.out.empty())
      std::cout << s << std::endl;
    else
      spit(opt.out, s);
  } catch (const HarnessError &e) {
    std::cerr << "harness error: " << e.msg << "\n";
    return 2;
  }
  return 0;
}
} // namespace eng
