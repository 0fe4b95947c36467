// vp.h - a small property-based testing engine.
//
// A case is a function of a finite sequence of bounded integer choices.  Choices come from a PRNG
// (generation) or from a recorded list (replay, shrinking).  Lower choices mean simpler cases, so a
// failing case shrinks by deleting, zeroing and lowering choices.  Cases run in forked workers: a
// crash, a sanitizer report or a hang is attributed to the case that was running.
#pragma once
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace vp {

struct Failure { std::string msg; };
struct Discard {};

inline uint64_t mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
inline uint64_t hash_str(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return h;
}

// choices of the case being run, visible to the parent process if this one dies
struct Shared {
  volatile uint64_t check, index, started, done, n, shrinking;
  uint64_t choices[1 << 20];
};

class Src {
 public:
  Src() {}
  void start_gen(uint64_t seed) { state_ = mix(seed); replay_ = false; reset(); }
  void start_replay(const std::vector<uint64_t>& c) { in_ = c; replay_ = true; reset(); }

  uint64_t below(uint64_t bound) {
    if (bound <= 1) return 0;
    uint64_t v;
    if (replay_) {
      v = pos_ < in_.size() ? in_[pos_] : 0;
      if (v >= bound) v = bound - 1;
    } else {
      state_ += 0x9e3779b97f4a7c15ull;
      v = mix(state_);
      v = (uint64_t)(((unsigned __int128)v * bound) >> 64);
    }
    ++pos_;
    out_.push_back(v);
    if (shared_ && out_.size() <= (1u << 20)) { shared_->choices[out_.size() - 1] = v; shared_->n = out_.size(); }
    if (out_.size() > 4000000) throw Discard();
    return v;
  }
  long range(long lo, long hi) { return lo + (long)below((uint64_t)(hi - lo) + 1); }
  bool chance(int num, int den) { return below(den) >= (uint64_t)(den - num); }
  bool flip() { return below(2) == 1; }
  double unit() { return (double)below(1ull << 32) / 4294967296.0; }
  double uniform(double lo, double hi) { return lo + (hi - lo) * unit(); }
  // magnitude up to a, simplest value 0; one in eight draws is an exact simple number
  double sym(double a) {
    uint64_t k = below(8);
    if (k == 0) return 0.0;
    double m = k == 1 ? a : a * unit();
    return flip() ? -m : m;
  }
  double usym(double a) { double m = a * unit(); return flip() ? -m : m; }
  double logu(double lo, double hi) { return lo * std::exp(std::log(hi / lo) * unit()); }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
  template <class T> T pick(std::initializer_list<T> v) { return *(v.begin() + below(v.size())); }
  std::vector<int> perm(int n) {
    std::vector<int> p(n);
    for (int i = 0; i < n; ++i) p[i] = i;
    for (int i = 0; i + 1 < n; ++i) std::swap(p[i], p[i + below(n - i)]);
    return p;
  }
  // small sizes are likelier than big ones
  long size(long lo, long hi) {
    if (chance(1, 3)) return range(lo, hi);
    long mid = lo + (hi - lo) / 3;
    return range(lo, mid);
  }
  uint64_t raw64() { uint64_t a = below(1ull << 32); return (a << 32) | below(1ull << 32); }

  void label(const std::string& l) { labels_.insert(l); }
  void nontrivial(bool b = true) { nontrivial_ = nontrivial_ || b; }
  bool nontrivial_flag() const { return nontrivial_; }
  std::ostream& note() { if (note_.tellp() > 200000) { note_.str(""); } return note_; }
  std::string notes() const { return note_.str(); }
  void tally(const std::string& k, double v = 1) { tallies_[k] += v; }
  void maxi(const std::string& k, double v) { auto& m = maxima_[k]; if (v > m) m = v; }

  int np = 1, rank = 0;           // set for MPI cases
  std::string dir;                // private scratch directory of this worker
  std::set<std::string> labels_;
  std::map<std::string, double> tallies_, maxima_;
  const std::vector<uint64_t>& choices() const { return out_; }
  void attach(Shared* s) { shared_ = s; }

 private:
  void reset() {
    pos_ = 0; out_.clear(); labels_.clear(); tallies_.clear(); maxima_.clear(); nontrivial_ = false;
    note_.str(""); note_.clear(); note_.precision(17);
    if (shared_) shared_->n = 0;
  }
  uint64_t state_ = 0;
  bool replay_ = false, nontrivial_ = false;
  size_t pos_ = 0;
  std::vector<uint64_t> in_, out_;
  std::ostringstream note_;
  Shared* shared_ = nullptr;
};

struct Fmt {
  std::ostringstream os;
  Fmt() { os.precision(17); }
  template <class T> Fmt& operator<<(const T& t) { os << t; return *this; }
  operator std::string() const { return os.str(); }
};
[[noreturn]] inline void fail(const std::string& m) { throw Failure{m}; }
#define VP_FAIL(stream_) ::vp::fail((::vp::Fmt() << stream_))
#define VP_REQUIRE(cond_, stream_) do { if (!(cond_)) VP_FAIL(stream_); } while (0)

inline bool near(double a, double b, double rel, double abs_) {
  if (a == b) return true;
  if (!(std::isfinite(a) && std::isfinite(b))) return false;
  return std::fabs(a - b) <= abs_ + rel * std::fmax(std::fabs(a), std::fabs(b));
}

using CaseFn = std::function<void(Src&)>;
struct Check {
  std::string property;   // Cxx
  std::string name;       // unique in the harness
  CaseFn      fn;
  long        quick, thorough;   // number of cases
  std::string rule;              // what a case is and what makes it non-trivial
  std::vector<int> np;           // non-empty: cases run under mpirun with these rank counts
  double      timeout_s = 60;
};
struct Hooks {
  std::function<void()> init, fini;   // per worker process (e.g. MPI/Kokkos start-up)
};
struct Command { int status = 0; bool timed_out = false; std::string out; };
// runs a command in directory cwd, stdout+stderr captured (tail), killed after timeout
Command run_command(const std::vector<std::string>& argv, const std::string& cwd, double timeout_s,
                    const std::vector<std::pair<std::string, std::string>>& env = {});

// known findings: id listed in /verif/known-findings.txt ?
bool known_listed(const std::string& id);

int vp_main(int argc, char** argv, std::vector<Check> checks, Hooks hooks = Hooks());
// a probe re-executes the specific input of a known finding; true = it still fails
void add_probe(const std::string& property, const std::string& id, const std::string& what, std::function<bool(Src&)> f);

}  // namespace vp
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
namespace vp {
// runs f in a forked child, output discarded: 0 it returned, 1 it threw, 2 it aborted or crashed
inline int in_child(const std::function<void()>& f) {
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    int n = open("/dev/null", O_WRONLY);
    dup2(n, 1);
#ifndef VP_SAFE
    dup2(n, 2);
#endif
    signal(SIGABRT, SIG_DFL);
    int rc = 0;
    try { f(); } catch (...) { rc = 1; }
    _exit(rc);
  }
  int st = 0;
  waitpid(p, &st, 0);
#ifdef VP_SAFE
  if (WIFEXITED(st) && WEXITSTATUS(st) == 99) _exit(99);   // its report is in the log
#endif
  return WIFEXITED(st) ? (WEXITSTATUS(st) > 1 ? 2 : WEXITSTATUS(st)) : 2;
}
}
