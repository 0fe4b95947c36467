#include "vp.h"
#ifdef VP_SAFE
#include <csetjmp>
#include <sanitizer/common_interface_defs.h>
#endif

#include <algorithm>
#include <chrono>
#include <cerrno>
#include <csignal>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <iterator>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

namespace vp {

static double now() {
  using namespace std::chrono;
  return duration<double>(steady_clock::now().time_since_epoch()).count();
}

// ---------------------------------------------------------------- utilities
static void rm_tree(const std::string& p) {
  struct stat st;
  if (lstat(p.c_str(), &st) != 0) return;
  if (S_ISDIR(st.st_mode)) {
    if (DIR* d = opendir(p.c_str())) {
      while (dirent* e = readdir(d)) {
        std::string n = e->d_name;
        if (n != "." && n != "..") rm_tree(p + "/" + n);
      }
      closedir(d);
    }
    rmdir(p.c_str());
  } else
    unlink(p.c_str());
}

static std::string read_file(const std::string& p, size_t tail = 0) {
  std::ifstream f(p, std::ios::binary);
  std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
  if (tail && s.size() > tail) s = s.substr(s.size() - tail);
  return s;
}

static std::string jesc(const std::string& s) {
  std::string o = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 0x20 || c >= 0x7f) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}

Command run_command(const std::vector<std::string>& argv, const std::string& cwd, double timeout_s,
                    const std::vector<std::pair<std::string, std::string>>& env) {
  Command r;
  static int counter = 0;
  std::string outf = cwd + "/.cmd" + std::to_string(getpid()) + "." + std::to_string(counter++);
  pid_t pid = fork();
  if (pid == 0) {
    setpgid(0, 0);
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (chdir(cwd.c_str())) _exit(126);
    int fd = open(outf.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644), nul = open("/dev/null", O_RDONLY);
    dup2(nul, 0); dup2(fd, 1); dup2(fd, 2);
    for (auto& e : env) setenv(e.first.c_str(), e.second.c_str(), 1);
    std::vector<char*> a;
    for (auto& s : argv) a.push_back(const_cast<char*>(s.c_str()));
    a.push_back(nullptr);
    execvp(a[0], a.data());
    _exit(127);
  }
  double t0 = now();
  int st = 0, spins = 0;
  while (true) {
    pid_t w = waitpid(pid, &st, WNOHANG);
    if (w == pid) break;
    if (w < 0 && errno != EINTR) break;
    if (now() - t0 > timeout_s) {
      kill(-pid, SIGKILL); kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      r.timed_out = true;
      break;
    }
    usleep(spins++ < 100 ? 500 : 3000);
  }
  kill(-pid, SIGKILL);
  r.status = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
  r.out = read_file(outf, 20000);
  unlink(outf.c_str());
  return r;
}

// ---------------------------------------------------------------- known findings
static std::string g_known_text;
bool known_listed(const std::string& id) {
  std::istringstream is(g_known_text);
  std::string line;
  while (std::getline(is, line)) {
    if (line.compare(0, 8, "finding:") == 0 && line.find("id=" + id + " ") != std::string::npos) return true;
  }
  return false;
}
struct Probe { std::string property, id, what; std::function<bool(Src&)> f; };
static std::vector<Probe>& probes() { static std::vector<Probe> p; return p; }
void add_probe(const std::string& property, const std::string& id, const std::string& what, std::function<bool(Src&)> f) {
  probes().push_back({property, id, what, f});
}

// ---------------------------------------------------------------- running one case
enum Outcome { PASS, DISCARD, FAIL };
#ifdef VP_SAFE
// Built with sanitizers and bounds checks, a harness decides one property more (C30): what ends a case here
// is what they report.  Any other outcome belongs to the property the case was written for.
static sigjmp_buf g_back;
static volatile sig_atomic_t g_inside = 0;
static pid_t g_owner = 0;
static void on_abort(int) {
  if (g_inside && getpid() == g_owner) siglongjmp(g_back, 1);
  signal(SIGABRT, SIG_DFL);
  raise(SIGABRT);
}
static void run_safe(const Check& c, Src& s) {
  std::streambuf *o = std::cout.rdbuf(), *e = std::cerr.rdbuf();
  struct Out { ~Out() { g_inside = 0; } } out;
  g_owner = getpid();
  signal(SIGABRT, on_abort);
  try {
    if (sigsetjmp(g_back, 1) == 0) { g_inside = s.np == 1; c.fn(s); }
    else { std::cout.rdbuf(o); std::cerr.rdbuf(e); s.label("ended by the code"); }
    return;
  } catch (const Discard&) {
    throw;
  } catch (...) {
  }
  s.label("another property");
  if (s.np > 1) _exit(76);      // the other ranks wait for this one
}
extern "C" {
void __real__ZN6Kokkos4Impl23throw_runtime_exceptionERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(const std::string& m);
void __wrap__ZN6Kokkos4Impl23throw_runtime_exceptionERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(const std::string& m) {
  if (m.find("bounds") != std::string::npos) { fprintf(stderr, "runtime error: %s\n", m.c_str()); __sanitizer_print_stack_trace(); _exit(99); }
  __real__ZN6Kokkos4Impl23throw_runtime_exceptionERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(m);
}
void __wrap__ZSt21__glibcxx_assert_failPKciS0_S0_(const char* f, int l, const char* fn, const char* c) {
  fprintf(stderr, "runtime error: %s:%d: %s: %s\n", f, l, fn, c);
  __sanitizer_print_stack_trace();
  _exit(99);
}
}
#endif
// the report in a log, from the beginning of its line
static std::string report(const std::string& log) {
  size_t p = std::min(log.find("ERROR: AddressSanitizer"), log.find("runtime error: "));
  if (p == std::string::npos) return log.size() > 1500 ? log.substr(log.size() - 1500) : log;
  size_t q = log.rfind('\n', p);
  return log.substr(q == std::string::npos ? 0 : q + 1, 2500);
}
static bool reported(const std::string& log) { return log.find("ERROR: AddressSanitizer") != std::string::npos || log.find("runtime error: ") != std::string::npos || log.find("View bounds error") != std::string::npos; }

static Outcome run_case(const Check& c, Src& s, std::string& msg) {
  try {
#ifdef VP_SAFE
    run_safe(c, s);
#else
    c.fn(s);
#endif
    return PASS;
  } catch (const Failure& f) {
    msg = f.msg;
    return FAIL;
  } catch (const Discard&) {
    return DISCARD;
  } catch (const std::exception& e) {
    msg = std::string("unexpected exception: ") + e.what();
    return FAIL;
  } catch (const char* e) {
    msg = std::string("unexpected exception: ") + e;
    return FAIL;
  } catch (...) {
    msg = "unexpected exception of unknown type";
    return FAIL;
  }
}

using Choices = std::vector<uint64_t>;
struct Found {
  bool any = false;
  size_t check = 0;
  int np = 0;
  Choices choices;
  std::string msg, notes;
};

// generic shrinker: fails(candidate, consumed) -> true when the candidate still fails
template <class F>
static void shrink(Choices& best, F fails, long max_tries, double max_s) {
  double t0 = now();
  long tries = 0;
  auto attempt = [&](const Choices& cand) {
    if (tries >= max_tries || now() - t0 > max_s) return false;
    ++tries;
    Choices used;
    if (fails(cand, used)) {
      bool better = used.size() < best.size() || (used.size() == best.size() && used < best);
      if (better) best = used;
      return better;
    }
    return false;
  };
  bool progress = true;
  while (progress && tries < max_tries && now() - t0 < max_s) {
    progress = false;
    for (size_t blk : {64, 16, 8, 4, 2, 1}) {
      for (long i = (long)best.size() - (long)blk; i >= 0; i -= std::max<long>(1, blk / 2)) {
        if (i + (long)blk > (long)best.size()) continue;
        Choices c = best;
        c.erase(c.begin() + i, c.begin() + i + blk);
        if (attempt(c)) progress = true;
      }
    }
    for (size_t blk : {32, 8, 2}) {
      for (size_t i = 0; i + blk <= best.size(); i += blk) {
        Choices c = best;
        bool nz = false;
        for (size_t k = i; k < i + blk; ++k) { nz = nz || c[k]; c[k] = 0; }
        if (nz && attempt(c)) progress = true;
      }
    }
    for (size_t i = 0; i < best.size(); ++i) {
      if (best[i] == 0) continue;
      Choices c = best;
      c[i] = 0;
      if (attempt(c)) { progress = true; continue; }
      uint64_t lo = 0;
      while (i < best.size() && best[i] - lo > 1) {
        uint64_t mid = lo + (best[i] - lo) / 2;
        c = best;
        c[i] = mid;
        if (attempt(c)) progress = true; else lo = mid;
        if (tries >= max_tries || now() - t0 > max_s) return;
      }
    }
  }
}

// ---------------------------------------------------------------- global options
static std::string g_self, g_scratch, g_property, g_tier = "quick", g_outdir, g_partial, g_harness;
static uint64_t g_seed = 1;
static int g_workers = 8;
static double g_scale = 1;
static std::vector<Check> g_checks;
static Hooks g_hooks;

static uint64_t case_seed(const Check& c, uint64_t i) {
  return mix(g_seed * 1000003ull + 17) ^ mix(hash_str(c.property + "/" + c.name)) ^ mix(i + 0x51ed27f5ull);
}
static long count_of(const Check& c) {
  double n = (g_tier == "quick" ? c.quick : c.thorough) * g_scale;
  return std::max<long>(n > 0 ? 1 : 0, (long)n);
}

struct CheckStats {
  uint64_t n = 0, discards = 0, nontrivial = 0;
  std::map<std::string, uint64_t> labels;
  std::map<std::string, double> tallies, maxima;
  std::vector<uint64_t> hashes;
  std::vector<std::string> samples;
};

static void account(CheckStats& st, Src& s, Outcome o) {
  ++st.n;
  if (o == DISCARD) { ++st.discards; return; }
  for (auto& l : s.labels_) ++st.labels[l];
  for (auto& t : s.tallies_) st.tallies[t.first] += t.second;
  for (auto& t : s.maxima_) { auto it = st.maxima.find(t.first); if (it == st.maxima.end() || it->second < t.second) st.maxima[t.first] = t.second; }
  if (s.nontrivial_flag()) {
    ++st.nontrivial;
    uint64_t h = 0;
    for (auto v : s.choices()) h = mix(h ^ v);
    st.hashes.push_back(h);
    if (st.samples.size() < 2) { std::string t = s.notes(); if (t.size() > 900) t = t.substr(0, 900) + " ..."; st.samples.push_back(t); }
  }
}

static void write_stats(const std::string& path, const std::map<size_t, CheckStats>& all) {
  std::ofstream f(path, std::ios::binary);
  auto put = [&](const std::string& s) { f << s.size() << " "; f.write(s.data(), s.size()); f << "\n"; };
  f << all.size() << "\n";
  f.precision(17);
  for (auto& kv : all) {
    auto& s = kv.second;
    f << kv.first << " " << s.n << " " << s.discards << " " << s.nontrivial << "\n";
    f << s.labels.size() << "\n";
    for (auto& l : s.labels) { f << l.second << " "; put(l.first); }
    f << s.tallies.size() << "\n";
    for (auto& l : s.tallies) { f << l.second << " "; put(l.first); }
    f << s.maxima.size() << "\n";
    for (auto& l : s.maxima) { f << l.second << " "; put(l.first); }
    f << s.hashes.size() << "\n";
    for (auto h : s.hashes) f << h << " ";
    f << "\n" << s.samples.size() << "\n";
    for (auto& x : s.samples) put(x);
  }
}
static void read_stats(const std::string& path, std::map<size_t, CheckStats>& all) {
  std::ifstream f(path, std::ios::binary);
  if (!f) return;
  auto get = [&]() { size_t n = 0; f >> n; f.get(); std::string s(n, 0); f.read(&s[0], n); return s; };
  size_t m = 0;
  f >> m;
  for (size_t k = 0; k < m && f; ++k) {
    size_t id = 0; uint64_t a, b, c;
    f >> id >> a >> b >> c;
    auto& s = all[id];
    s.n += a; s.discards += b; s.nontrivial += c;
    size_t q = 0;
    f >> q;
    for (size_t i = 0; i < q; ++i) { uint64_t v; f >> v; auto key = get(); s.labels[key] += v; }
    f >> q;
    for (size_t i = 0; i < q; ++i) { std::string t; f >> t; auto key = get(); s.tallies[key] += strtod(t.c_str(), 0); }
    f >> q;
    for (size_t i = 0; i < q; ++i) { std::string t; f >> t; double v = strtod(t.c_str(), 0); auto key = get(); auto it = s.maxima.find(key); if (it == s.maxima.end() || it->second < v) s.maxima[key] = v; }
    f >> q;
    for (size_t i = 0; i < q; ++i) { uint64_t h; f >> h; s.hashes.push_back(h); }
    f >> q;
    for (size_t i = 0; i < q; ++i) { auto x = get(); if (s.samples.size() < 3) s.samples.push_back(x); }
  }
}

static void write_found(const std::string& path, const Found& fd) {
  std::ofstream f(path + ".tmp", std::ios::binary);
  f << "property " << g_checks[fd.check].property << "\ncheck " << g_checks[fd.check].name << "\nharness " << g_harness
    << "\nnp " << fd.np << "\nchoices " << fd.choices.size() << "\n";
  for (auto v : fd.choices) f << v << " ";
  f << "\n---- failure\n" << fd.msg << "\n---- case\n" << fd.notes << "\n";
  f.close();
  rename((path + ".tmp").c_str(), path.c_str());
}
static bool read_found(const std::string& path, Found& fd) {
  std::ifstream f(path, std::ios::binary);
  if (!f) return false;
  std::string k, prop, name, v;
  f >> k >> prop >> k >> name >> k >> v >> k >> fd.np >> k;
  size_t n = 0;
  f >> n;
  fd.choices.resize(n);
  for (auto& c : fd.choices) f >> c;
  fd.any = false;
  for (size_t i = 0; i < g_checks.size(); ++i)
    if (g_checks[i].property == prop && g_checks[i].name == name) { fd.check = i; fd.any = true; }
  std::string rest((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
  size_t a = rest.find("---- failure\n"), b = rest.find("\n---- case\n");
  if (a != std::string::npos && b != std::string::npos) {
    fd.msg = rest.substr(a + 13, b - a - 13);
    fd.notes = rest.substr(b + 11);
  }
  return fd.any;
}

static void quiet(const std::string& log) {
  int fd = open(log.c_str(), O_CREAT | O_WRONLY | O_TRUNC | O_APPEND, 0644);
  dup2(fd, 1); dup2(fd, 2);
  close(fd);
}
static Shared* map_shared(const std::string& path, bool create) {
  int fd = open(path.c_str(), create ? (O_CREAT | O_RDWR | O_TRUNC) : O_RDWR, 0644);
  if (fd < 0) return nullptr;
  if (create && ftruncate(fd, sizeof(Shared))) return nullptr;
  void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  close(fd);
  return p == MAP_FAILED ? nullptr : (Shared*)p;
}
// keep the log from growing without bound
static void trim_log(const std::string& log) {
  struct stat st;
  if (stat(log.c_str(), &st) == 0 && st.st_size > (8 << 20)) if (truncate(log.c_str(), 0)) {}
}

static uint64_t g_heartbeat_ms() {
  return (uint64_t)(now() * 1000);
}
// seconds since the worker last said it was alive; it may say so again while we look
static double idle_s(const Shared* sh) {
  int64_t started = (int64_t)sh->started;
  return std::max(0.0, ((int64_t)g_heartbeat_ms() - started) / 1000.0);
}

// ---------------------------------------------------------------- worker (one process)
static void worker_loop(int w, int W, Shared* sh, const std::string& base, const std::vector<size_t>& which) {
  std::string dir = base + ".d";
  mkdir(dir.c_str(), 0755);
  if (chdir(dir.c_str())) {}
  Src src;
  src.dir = dir;
  src.attach(sh);
  std::map<size_t, CheckStats> all;
  for (size_t ci : which) {
    const Check& c = g_checks[ci];
    long n = count_of(c);
    auto& st = all[ci];
    sh->check = ci;
    for (long i = w; i < n; i += W) {
      sh->index = i; sh->shrinking = 0;
      sh->started = g_heartbeat_ms();
      src.start_gen(case_seed(c, i));
      std::string msg;
      Outcome o = run_case(c, src, msg);
      account(st, src, o);
      if (i % 256 == 0) trim_log(base + ".log");
      if (o == FAIL) {
        Found fd;
        fd.any = true; fd.check = ci; fd.np = 0; fd.choices = src.choices(); fd.msg = msg; fd.notes = src.notes();
        std::string fp = base + ".fail." + std::to_string(ci);
        write_found(fp, fd);
        sh->shrinking = 1;
        shrink(fd.choices, [&](const Choices& cand, Choices& used) {
          sh->started = g_heartbeat_ms();
          src.start_replay(cand);
          std::string m;
          Outcome oo = run_case(c, src, m);
          used = src.choices();
          if (oo == FAIL) return true;
          return false;
        }, 3000, 20.0);
        sh->started = g_heartbeat_ms();
        src.start_replay(fd.choices);
        std::string m;
        if (run_case(c, src, m) == FAIL) { fd.msg = m; fd.notes = src.notes(); write_found(fp, fd); }
        break;
      }
    }
  }
  write_stats(base + ".stats", all);
  sh->done = 1;
}

// runs f in a forked child with the worker set-up; returns true if the child reported failure
// (or crashed / timed out).  msg gets the reason.
static bool forked_replay(const Found& fd, std::string& msg, std::string& notes, bool& discarded);

// mpirun invocation on this harness
static std::vector<std::string> mpirun(int np) {
  return {"mpirun", "--oversubscribe", "--bind-to", "none", "-np", std::to_string(np)};
}
static std::vector<std::pair<std::string, std::string>> mpi_env() {
  return {{"OMPI_ALLOW_RUN_AS_ROOT", "1"}, {"OMPI_ALLOW_RUN_AS_ROOT_CONFIRM", "1"},
          {"OMPI_MCA_btl_vader_single_copy_mechanism", "none"}, {"OMPI_MCA_btl", "self,vader"},
          {"OMPI_MCA_plm_rsh_agent", ""}, {"OMPI_MCA_rmaps_base_oversubscribe", "1"},
          {"OMPI_MCA_mpi_yield_when_idle", "1"}, {"OMP_NUM_THREADS", "1"}};
}

static bool mpi_replay(const Found& fd, std::string& msg, std::string& notes) {
  static int k = 0;
  std::string base = g_scratch + "/mr" + std::to_string(getpid()) + "." + std::to_string(k++);
  write_found(base + ".in", fd);
  auto a = mpirun(fd.np);
  a.push_back(g_self);
  a.insert(a.end(), {"--mpi-replay", base + ".in", "--base", base, "--seed", std::to_string(g_seed)});
  Command c = run_command(a, g_scratch, g_checks[fd.check].timeout_s, mpi_env());
  if (c.status == 0 && !c.timed_out) return false;
#ifdef VP_SAFE
  for (int r = 0; r < fd.np; ++r) {
    std::string log = read_file(base + ".log." + std::to_string(r));
    if (!reported(log)) continue;
    msg = "[rank " + std::to_string(r) + "] " + report(log);
    return true;
  }
  return false;
#endif
  msg = c.timed_out ? "hang: not finished after " + std::to_string((int)g_checks[fd.check].timeout_s) + " s" : "";
  for (int r = 0; r < fd.np; ++r) {
    std::string f = read_file(base + ".fail." + std::to_string(r));
    if (!f.empty()) { Found x; if (read_found(base + ".fail." + std::to_string(r), x)) { msg += "[rank " + std::to_string(r) + "] " + x.msg + "\n"; notes = x.notes; } }
  }
  if (msg.empty()) msg = "a rank died (mpirun status " + std::to_string(c.status) + "): " + c.out.substr(c.out.size() > 1500 ? c.out.size() - 1500 : 0);
  return true;
}

static bool forked_replay(const Found& fd, std::string& msg, std::string& notes, bool& discarded) {
  static int k = 0;
  std::string base = g_scratch + "/fr" + std::to_string(getpid()) + "." + std::to_string(k++);
  discarded = false;
  pid_t pid = fork();
  if (pid == 0) {
    setpgid(0, 0);
    quiet(base + ".log");
    if (g_hooks.init) g_hooks.init();
    std::string dir = base + ".d";
    mkdir(dir.c_str(), 0755);
    if (chdir(dir.c_str())) {}
    Src s;
    s.dir = dir;
    s.start_replay(fd.choices);
    std::string m;
    Outcome o = run_case(g_checks[fd.check], s, m);
    if (o == FAIL) {
      Found x = fd;
      x.msg = m; x.notes = s.notes(); x.choices = s.choices();
      write_found(base + ".fail", x);
    }
    if (g_hooks.fini) g_hooks.fini();
    _exit(o == FAIL ? 77 : o == DISCARD ? 78 : 0);
  }
  double t0 = now();
  int st = 0;
  bool to = false;
  while (waitpid(pid, &st, WNOHANG) == 0) {
    if (now() - t0 > g_checks[fd.check].timeout_s) { kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &st, 0); to = true; break; }
    usleep(1000);
  }
  kill(-pid, SIGKILL);
  rm_tree(base + ".d");
#ifdef VP_SAFE
  if (to) return false;
#endif
  if (to) { msg = "hang: case not finished after " + std::to_string((int)g_checks[fd.check].timeout_s) + " s"; return true; }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 78) { discarded = true; return false; }
  Found x;
  if (read_found(base + ".fail", x)) { msg = x.msg; notes = x.notes; return true; }
  std::string log = read_file(base + ".log");
#ifdef VP_SAFE
  if (!reported(log)) return false;
#endif
  log = report(log);
  msg = std::string("process died: ") + (WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit status " + std::to_string(WEXITSTATUS(st))) + "\n" + log;
  return true;
}

struct Job { pid_t pid; std::string base; Shared* sh; int np; size_t check; long first, count; bool mpi; };

#ifdef VP_SAFE
static void safe_checks() {
  for (auto& c : g_checks) {
    c.property = "C30";
    c.name = "safe-" + c.name;
    c.quick = std::max(1L, c.quick / VP_SAFE);
    c.thorough = std::max(1L, c.thorough / VP_SAFE);
  }
}
#endif
int vp_main(int argc, char** argv, std::vector<Check> checks, Hooks hooks) {
  g_checks = checks;
#ifdef VP_SAFE
  safe_checks();
#endif
  g_hooks = hooks;
  char selfp[4096];
  ssize_t l = readlink("/proc/self/exe", selfp, sizeof selfp - 1);
  selfp[l > 0 ? l : 0] = 0;
  g_self = selfp;
  g_harness = g_self.substr(g_self.rfind('/') + 1);
  std::string replay, mpi_job, mpi_rep, base, only, known;
  std::vector<std::string> rest;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--property") g_property = val();
    else if (a == "--tier") g_tier = val();
    else if (a == "--seed") g_seed = strtoull(val().c_str(), 0, 10);
    else if (a == "--workers") g_workers = atoi(val().c_str());
    else if (a == "--scale") g_scale = atof(val().c_str());
    else if (a == "--outdir") g_outdir = val();
    else if (a == "--partial") g_partial = val();
    else if (a == "--known") known = val();
    else if (a == "--replay") replay = val();
    else if (a == "--only") only = val();
    else if (a == "--mpi-job") { mpi_job = val(); rest = {val(), val(), val()}; }
    else if (a == "--mpi-replay") mpi_rep = val();
    else if (a == "--base") base = val();
    else if (a == "--list") {
      for (auto& c : g_checks) printf("%s %s quick=%ld thorough=%ld\n", c.property.c_str(), c.name.c_str(), c.quick, c.thorough);
      return 0;
    } else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
  }
  if (!known.empty()) { setenv("VP_KNOWN", known.c_str(), 1); }
  if (const char* k = getenv("VP_KNOWN")) g_known_text = read_file(k);
  rlimit nocore = {0, 0};
  setrlimit(RLIMIT_CORE, &nocore);

  // ---- inside mpirun: run a slice of cases, or one replay
  if (!mpi_job.empty() || !mpi_rep.empty()) {
    const char* er = getenv("OMPI_COMM_WORLD_RANK"); const char* es = getenv("OMPI_COMM_WORLD_SIZE");
    int rank = er ? atoi(er) : 0, np = es ? atoi(es) : 1;
    quiet(base + ".log." + std::to_string(rank));
    if (g_hooks.init) g_hooks.init();
    Src s;
    s.np = np; s.rank = rank;
    s.dir = base + ".d";
    mkdir(s.dir.c_str(), 0755);
    if (chdir(s.dir.c_str())) {}
    auto bail = [&](size_t ci, const std::string& m) {
      Found x; x.any = true; x.check = ci; x.np = np; x.choices = s.choices(); x.msg = m; x.notes = s.notes();
      write_found(base + ".fail." + std::to_string(rank), x);
      _exit(77);
    };
    if (!mpi_rep.empty()) {
      Found fd;
      if (!read_found(mpi_rep, fd)) return 2;
      s.start_replay(fd.choices);
      std::string m;
      if (run_case(g_checks[fd.check], s, m) == FAIL) bail(fd.check, m);
      if (g_hooks.fini) g_hooks.fini();
      _exit(0);
    }
    size_t ci = strtoull(mpi_job.c_str(), 0, 10);
    long first = atol(rest[0].c_str()), count = atol(rest[1].c_str()), stride = atol(rest[2].c_str());
    const Check& c = g_checks[ci];
    Shared* sh = nullptr;
    if (rank == 0) { sh = map_shared(base + ".shm", false); s.attach(sh); }
    std::map<size_t, CheckStats> all;
    auto& st = all[ci];
    for (long k = 0; k < count; ++k) {
      long i = first + k * stride;
      if (sh) { sh->check = ci; sh->index = i; sh->started = g_heartbeat_ms(); }
      s.start_gen(case_seed(c, i));
      std::string m;
      Outcome o = run_case(c, s, m);
      if (rank == 0) account(st, s, o);
      if (o == FAIL) bail(ci, m);
    }
    if (rank == 0) { write_stats(base + ".stats", all); sh->done = 1; }
    if (g_hooks.fini) g_hooks.fini();
    _exit(0);
  }

  // ---- parent
  double t_start = now();
  char tmpl[] = "/tmp/vpXXXXXX";
  g_scratch = mkdtemp(tmpl);
  struct Cleanup { ~Cleanup() { rm_tree(g_scratch); } } cleanup;

  if (!replay.empty()) {
    Found fd;
    if (!read_found(replay, fd)) { fprintf(stderr, "cannot read replay file %s for this harness\n", replay.c_str()); return 2; }
    std::string msg, notes;
    bool disc = false;
    bool f = fd.np > 0 ? mpi_replay(fd, msg, notes) : forked_replay(fd, msg, notes, disc);
    printf("%s %s/%s\n%s\n%s\n", f ? "FAILS" : disc ? "DISCARDED" : "PASSES", g_checks[fd.check].property.c_str(), g_checks[fd.check].name.c_str(), msg.c_str(), notes.c_str());
    return f ? 1 : 0;
  }

  std::vector<size_t> serial, mpi;
  for (size_t i = 0; i < g_checks.size(); ++i) {
    if (!g_property.empty() && g_checks[i].property != g_property) continue;
    if (!only.empty() && g_checks[i].name.find(only) == std::string::npos) continue;
    if (count_of(g_checks[i]) <= 0) continue;
    (g_checks[i].np.empty() ? serial : mpi).push_back(i);
  }

  std::map<size_t, CheckStats> stats;
  std::vector<Found> founds;
  std::vector<std::string> infra;
  int unconfirmed = 0;

  // serial checks: W forked workers
  auto spawn_worker = [&](int w, Job& j) {
    j.base = g_scratch + "/w" + std::to_string(w);
    j.sh = map_shared(j.base + ".shm", true);
    j.mpi = false; j.np = 0;
    j.sh->started = g_heartbeat_ms();
    j.sh->check = serial[0];
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
      setpgid(0, 0);
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      quiet(j.base + ".log");
      if (g_hooks.init) g_hooks.init();
      worker_loop(w, g_workers, j.sh, j.base, serial);
      if (g_hooks.fini) g_hooks.fini();
      _exit(0);
    }
    j.pid = pid;
  };
  std::vector<Job> jobs;
  if (!serial.empty()) {
    for (int w = 0; w < g_workers; ++w) { Job j; spawn_worker(w, j); jobs.push_back(j); }
    for (int w = 0; w < g_workers; ++w) {
      Job& j = jobs[w];
      int st = 0, restarts = 0;
      bool to = false;
      while (true) {
        pid_t r = waitpid(j.pid, &st, WNOHANG);
        if (r != 0 && !j.sh->done && j.sh->n == 0 && !to && restarts < 2 && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
          // gone before it drew anything: nothing to blame on a case
          ++restarts;
          munmap(j.sh, sizeof(Shared));
          spawn_worker(w, j);
          usleep(10000);
          continue;
        }
        if (r != 0) break;
        // any worker may hang: check them all
        for (auto& q : jobs) {
          if (q.pid <= 0 || q.sh->done) continue;
          double idle = idle_s(q.sh);
          double lim = g_checks[q.sh->check].timeout_s + (q.sh->n == 0 ? 60 : 0);
          if (idle > lim) { kill(-q.pid, SIGKILL); kill(q.pid, SIGKILL); if (q.pid == j.pid) to = true; }
        }
        usleep(2000);
      }
      kill(-j.pid, SIGKILL);
      bool died = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
      read_stats(j.base + ".stats", stats);
      for (size_t ci : serial) {
        Found fd;
        if (read_found(j.base + ".fail." + std::to_string(ci), fd)) founds.push_back(fd);
      }
      if (died && !j.sh->done) {
        Found fd;
        fd.any = true; fd.check = j.sh->check; fd.np = 0;
        fd.choices.assign(j.sh->choices, j.sh->choices + std::min<uint64_t>((uint64_t)j.sh->n, (uint64_t)1 << 20));
        fd.msg = to ? "hang" : "process died";
        stats[fd.check].n += j.sh->index / g_workers;
        founds.push_back(fd);
      }
      j.pid = -1;
      munmap(j.sh, sizeof(Shared));
      unlink((j.base + ".shm").c_str());
    }
  }

  // MPI checks: a pool of mpirun jobs using at most ~8 processes at once
  struct MJob { size_t check; int np; long first, count, stride; };
  std::vector<MJob> todo;
  for (size_t ci : mpi) {
    const Check& c = g_checks[ci];
    long n = count_of(c), k = (long)c.np.size();
    for (long q = 0; q < k; ++q) {
      long cnt = n / k + (q < n % k ? 1 : 0);
      // a job creates communicators MPI never recycles in number: bounded cases per job
      for (long at = 0; at < cnt; at += 3000) todo.push_back({ci, c.np[q], q + at * k, std::min(3000L, cnt - at), k});
    }
  }
  std::sort(todo.begin(), todo.end(), [](const MJob& a, const MJob& b) { return a.np * a.count > b.np * b.count; });
  std::vector<Job> running;
  size_t next = 0;
  int procs = 0, jn = 0;
  while (next < todo.size() || !running.empty()) {
    while (next < todo.size() && (procs + todo[next].np <= 9 || running.empty())) {
      const MJob& m = todo[next++];
      Job j;
      j.base = g_scratch + "/m" + std::to_string(jn++);
      j.sh = map_shared(j.base + ".shm", true);
      j.np = m.np; j.check = m.check; j.mpi = true; j.first = m.first; j.count = m.count;
      j.sh->check = m.check;
      j.sh->started = g_heartbeat_ms();
      auto a = mpirun(m.np);
      a.push_back(g_self);
      a.insert(a.end(), {"--mpi-job", std::to_string(m.check), std::to_string(m.first), std::to_string(m.count), std::to_string(m.stride),
                         "--base", j.base, "--seed", std::to_string(g_seed), "--tier", g_tier});
      pid_t pid = fork();
      if (pid == 0) {
        setpgid(0, 0);
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        quiet(j.base + ".log");
        for (auto& e : mpi_env()) setenv(e.first.c_str(), e.second.c_str(), 1);
        std::vector<char*> av;
        for (auto& s : a) av.push_back(const_cast<char*>(s.c_str()));
        av.push_back(nullptr);
        execvp(av[0], av.data());
        _exit(127);
      }
      j.pid = pid;
      procs += m.np;
      running.push_back(j);
    }
    for (size_t k = 0; k < running.size();) {
      Job& j = running[k];
      int st = 0;
      bool to = false;
      pid_t r = waitpid(j.pid, &st, WNOHANG);
      if (r == 0) {
        double idle = idle_s(j.sh);
        if (idle > g_checks[j.check].timeout_s + 30) { kill(-j.pid, SIGTERM); usleep(500000); kill(-j.pid, SIGKILL); waitpid(j.pid, &st, 0); to = true; }
        else { ++k; continue; }
      }
      kill(-j.pid, SIGKILL);
      read_stats(j.base + ".stats", stats);
      bool ok = !to && WIFEXITED(st) && WEXITSTATUS(st) == 0 && j.sh->done;
      if (!ok) {
        Found fd;
        fd.any = true; fd.check = j.check; fd.np = j.np;
        fd.msg = to ? "hang" : "a rank failed or died";
        if (j.sh->n == 0 && j.sh->index == 0 && !to) {
          infra.push_back("mpirun could not start: " + read_file(j.base + ".log", 800) + read_file(j.base + ".log.0", 400));
          if (access((j.base + ".log.0").c_str(), F_OK) == 0) infra.pop_back();
        }
#ifdef VP_SAFE
        bool seen = false;
        for (int rk = 0; rk < j.np; ++rk) seen = seen || reported(read_file(j.base + ".log." + std::to_string(rk)));
        if (!seen) { stats[j.check].n += (j.sh->index - j.first) / std::max<size_t>(1, g_checks[j.check].np.size()); goto over; }
#endif
        bool got = false;
        for (int rk = 0; rk < j.np && !got; ++rk) { Found x; if (read_found(j.base + ".fail." + std::to_string(rk), x)) { x.np = j.np; fd = x; got = true; } }
        if (!got) fd.choices.assign(j.sh->choices, j.sh->choices + std::min<uint64_t>((uint64_t)j.sh->n, (uint64_t)1 << 20));
        founds.push_back(fd);
        stats[j.check].n += (j.sh->index - j.first) / std::max<size_t>(1, g_checks[j.check].np.size());
      }
#ifdef VP_SAFE
    over:
#endif
      procs -= j.np;
      munmap(j.sh, sizeof(Shared));
      running.erase(running.begin() + k);
    }
    usleep(3000);
  }

  // confirm: one finding per check, the smallest; three fresh replays
  std::map<size_t, Found> best;
  for (auto& f : founds) {
    auto it = best.find(f.check);
    if (it == best.end() || f.choices.size() < it->second.choices.size()) best[f.check] = f;
  }
  std::vector<std::pair<Found, std::string>> confirmed;
  for (auto& kv : best) {
    Found fd = kv.second;
    int hits = 0;
    for (int r = 0; r < 3; ++r) {
      std::string m, nt;
      bool d = false;
      bool f = fd.np > 0 ? mpi_replay(fd, m, nt) : forked_replay(fd, m, nt, d);
      if (f) { ++hits; fd.msg = m; if (!nt.empty()) fd.notes = nt; }
    }
    if (hits < 2) {
      ++unconfirmed;
      infra.push_back("unconfirmed (failed " + std::to_string(hits) + "/3 replays): " + g_checks[fd.check].name + ": " + kv.second.msg);
      if (!g_outdir.empty()) { mkdir(g_outdir.c_str(), 0755); write_found(g_outdir + "/unconfirmed-" + g_checks[fd.check].property + "-" + g_checks[fd.check].name + ".txt", kv.second); }
      continue;
    }
    // crashes and MPI failures shrink here, in child processes
    if (fd.np > 0 || kv.second.msg == "process died") {
      shrink(fd.choices, [&](const Choices& cand, Choices& used) {
        Found x = fd; x.choices = cand; used = cand;
        std::string m, nt; bool d = false;
        bool f = x.np > 0 ? mpi_replay(x, m, nt) : forked_replay(x, m, nt, d);
        if (f) { fd.msg = m; if (!nt.empty()) fd.notes = nt; }
        return f;
      }, 400, 25.0);
    }
    if (fd.notes.empty()) fd.notes = "(see choices)";
    std::string rp = (g_outdir.empty() ? std::string("/tmp") : g_outdir);
    mkdir(rp.c_str(), 0755);
    rp += "/" + g_checks[fd.check].property + "-" + g_checks[fd.check].name + ".replay";
    write_found(rp, fd);
    confirmed.push_back({fd, rp});
  }

  // probes for listed findings
  std::vector<std::string> known_lines;
  for (auto& p : probes()) {
    if (!g_property.empty() && p.property != g_property) continue;
    if (!known_listed(p.id)) continue;
    pid_t pid = fork();
    if (pid == 0) {
      quiet(g_scratch + "/probe.log");
      if (g_hooks.init) g_hooks.init();
      Src s; s.dir = g_scratch; s.start_replay({});
      bool f = true;
      try { f = p.f(s); } catch (...) { f = true; }
      _exit(f ? 77 : 0);
    }
    int st = 0;
    double t0 = now();
    while (waitpid(pid, &st, WNOHANG) == 0) { if (now() - t0 > 30) { kill(pid, SIGKILL); waitpid(pid, &st, 0); break; } usleep(1000); }
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) known_lines.push_back("KNOWN-FINDING: property=" + p.property + " " + p.id + " " + p.what);
  }

  // partial evidence
  std::ofstream pf;
  std::ostringstream js;
  js.precision(10);
  js << "{\"harness\":" << jesc(g_harness) << ",\"checks\":[";
  bool firstc = true;
  for (auto& kv : stats) {
    auto& c = g_checks[kv.first];
    auto& s = kv.second;
    std::unordered_set<uint64_t> hs(s.hashes.begin(), s.hashes.end());
    js << (firstc ? "" : ",") << "{\"property\":" << jesc(c.property) << ",\"name\":" << jesc(c.name) << ",\"rule\":" << jesc(c.rule) << ",\"evaluations\":" << (s.n - s.discards)
       << ",\"discarded\":" << s.discards << ",\"nontrivial\":" << s.nontrivial << ",\"distinct_nontrivial\":" << hs.size();
    firstc = false;
    if (!c.np.empty()) { js << ",\"ranks\":["; for (size_t i = 0; i < c.np.size(); ++i) js << (i ? "," : "") << c.np[i]; js << "]"; }
    js << ",\"labels\":{";
    bool f1 = true;
    for (auto& x : s.labels) { js << (f1 ? "" : ",") << jesc(x.first) << ":" << x.second; f1 = false; }
    js << "},\"tallies\":{";
    f1 = true;
    for (auto& x : s.tallies) { js << (f1 ? "" : ",") << jesc(x.first) << ":" << (std::isfinite(x.second) ? x.second : 0); f1 = false; }
    js << "},\"maxima\":{";
    f1 = true;
    for (auto& x : s.maxima) { js << (f1 ? "" : ",") << jesc(x.first) << ":" << (std::isfinite(x.second) ? x.second : 1e308); f1 = false; }
    js << "},\"samples\":[";
    for (size_t i = 0; i < s.samples.size(); ++i) js << (i ? "," : "") << jesc(s.samples[i]);
    js << "]}";
  }
  js << "],\"violations\":[";
  for (size_t i = 0; i < confirmed.size(); ++i)
    js << (i ? "," : "") << "{\"property\":" << jesc(g_checks[confirmed[i].first.check].property) << ",\"check\":" << jesc(g_checks[confirmed[i].first.check].name)
       << ",\"replay\":" << jesc(confirmed[i].second) << ",\"msg\":" << jesc(confirmed[i].first.msg.substr(0, 1500)) << ",\"case\":" << jesc(confirmed[i].first.notes.substr(0, 1500)) << "}";
  js << "],\"known\":[";
  for (size_t i = 0; i < known_lines.size(); ++i) js << (i ? "," : "") << jesc(known_lines[i]);
  js << "],\"infra\":[";
  for (size_t i = 0; i < infra.size(); ++i) js << (i ? "," : "") << jesc(infra[i]);
  js << "],\"wall_s\":" << (now() - t_start) << "}\n";
  if (!g_partial.empty()) { std::ofstream f(g_partial); f << js.str(); }
  else fputs(js.str().c_str(), stdout);
  return confirmed.empty() ? 0 : 1;
}

}  // namespace vp
