// C29 a material with history, plugged in where the application lets one; C11 the storage behind the fields
#include "host.h"
#include "nimble_kokkos_material_factory.h"
#include "nimble_data_utils.h"
#include "nimble_material.h"
namespace {
// ---------------------------------------------------------------- C29
// The law is the elastic one. It writes down what it is handed at every call and what it leaves behind.
using State = std::vector<double>;
struct Given { double F[9], sig[6]; State st; };
struct Words { std::vector<std::string> name; std::vector<double> first; };   // state of one block, host data
struct Log {
  bool host = false, quasi = false;
  double t0 = 0;
  std::vector<Words> words;              // per block; a block without any has no state
  std::vector<int> points;               // per block: how many points there are, 0: a law of the library
  unsigned long key = 1;
  // the step under way
  bool any = false;
  double tc = 0, tp = 0;
  struct Point { Given now, past; bool has_now = false, has_past = false; int calls = 0; };
  std::vector<std::map<long, Point>> pt;           // per block: tag, or element and point
  std::vector<std::vector<Given>> then, now;       // portable blocks without state: all of them, in no order
  struct Step { double tc; std::vector<std::map<long, Given>> pt; };
  std::vector<Step> steps;
  long tags = 0, calls = 0;
  std::string bad;
  void say(const std::string& t) { if (bad.empty()) bad = t; }
};
Log rec;
double hashed(unsigned long a, unsigned long b, unsigned long c) {
  unsigned long z = a * 0x9E3779B97F4A7C15ul + b * 0xBF58476D1CE4E5B9ul + c * 0x94D049BB133111EBul + 0x1234567;
  z ^= z >> 31; z *= 0x7FB5D329728EA185ul; z ^= z >> 27; z *= 0x81DADEF4BC2DD44Dul; z ^= z >> 33;
  return ((double)(long)(z >> 11) / 4503599627370496.0 - 1) * (z & 1 ? 1 : 1e3);
}
bool same(const double* a, const double* b, int n) { for (int i = 0; i < n; ++i) if (!(a[i] == b[i])) return false; return true; }
std::string show(const double* a, int n) { std::string r; for (int i = 0; i < n; ++i) r += (i ? " " : "") + num(a[i]); return r; }
void end_step() {
  Log::Step st;
  st.tc = rec.tc;
  st.pt.resize(rec.pt.size());
  for (size_t b = 0; b < rec.pt.size(); ++b) {
    if (!rec.points[b]) continue;
    bool loose = !rec.host && rec.words[b].name.empty();
    if (loose) {
      if ((int)rec.now[b].size() != rec.points[b]) rec.say("block " + std::to_string(b) + ": " + std::to_string(rec.now[b].size()) + " stress evaluations in the step to time " + num(rec.tc) + ", it has " + std::to_string(rec.points[b]) + " points");
      auto key = [](const Given& g) { std::vector<double> k(g.F, g.F + 9); k.insert(k.end(), g.sig, g.sig + 6); return k; };
      std::sort(rec.now[b].begin(), rec.now[b].end(), [&](const Given& x, const Given& y) { return key(x) < key(y); });
      rec.then[b].swap(rec.now[b]);
      rec.now[b].clear();
      continue;
    }
    int c0 = -1, n = 0;
    for (auto& kv : rec.pt[b]) {
      auto& p = kv.second;
      if (c0 < 0) c0 = p.calls;
      if (p.calls != c0) rec.say("the points of block " + std::to_string(b) + " are not evaluated equally often in the step to time " + num(rec.tc));
      n += p.calls > 0;
      p.calls = 0;
      if (p.has_now) { p.past = p.now; p.has_past = true; p.has_now = false; st.pt[b][kv.first] = p.past; }
    }
    if (n != rec.points[b]) rec.say("block " + std::to_string(b) + ": " + std::to_string(n) + " points are evaluated in the step to time " + num(rec.tc) + ", it has " + std::to_string(rec.points[b]));
  }
  rec.steps.push_back(st);
}
// one call: returns the state to leave behind
State asked(int b, long elem, int ipt, double tp, double tc, const double* Fn, const double* F, const double* sn, const double* snp1, const State& st) {
  ++rec.calls;
  if (!rec.any || tc != rec.tc) {
    if (rec.any) end_step();
    double was = rec.any ? rec.tc : rec.t0;
    if (tp != was) rec.say("the step to time " + num(tc) + " is said to start at " + num(tp) + ", the one before ended at " + num(was));
    rec.any = true;
    rec.tc = tc;
    rec.tp = tp;
  }
  if (tp != rec.tp) rec.say("two evaluations in the step to time " + num(tc) + " are given different previous times");
  Given g;
  std::copy(F, F + 9, g.F);
  std::copy(snp1, snp1 + 6, g.sig);
  bool first = rec.steps.empty();
  const double I[9] = {1, 1, 1, 0, 0, 0, 0, 0, 0}, Z[9] = {0};
  auto& w = rec.words[b];
  if (!rec.host && w.name.empty()) {
    if (first) { if (!same(Fn, I, 9) || !same(sn, Z, 6)) rec.say("first step: the previous deformation gradient is " + show(Fn, 9) + ", the previous stress " + show(sn, 6)); }
    else {
      bool f = false;
      for (auto& x : rec.then[b]) if (same(Fn, x.F, 9) && same(sn, x.sig, 6)) { f = true; break; }
      if (!f) rec.say("block " + std::to_string(b) + " without state: no point was left with deformation gradient " + show(Fn, 9) + " and stress " + show(sn, 6) + " in the step before");
    }
    rec.now[b].push_back(g);
    return State();
  }
  long id;
  if (rec.host) id = elem * 8 + ipt;
  else if (first) id = ++rec.tags;
  else id = (long)st[10];
  if (!rec.host && !first && !rec.pt[b].count(id)) { rec.say("block " + std::to_string(b) + ", step to time " + num(tc) + ": no point was left with the state " + show(st.data(), (int)st.size())); return st; }
  auto& p = rec.pt[b][id];
  if (!rec.host && p.has_now) rec.say("block " + std::to_string(b) + ": two points are given the state of one");
  std::string at = "block " + std::to_string(b) + (rec.host ? ", element " + std::to_string(elem) + " point " + std::to_string(ipt + 1) : ", point " + std::to_string(id)) + ", step to time " + num(tc) + ": ";
  State want(st.size(), 0);
  if (rec.host) for (size_t i = 0; i < w.first.size(); ++i) want[i] = w.first[i];
  if (first || !p.has_past) {
    if (!first) rec.say(at + "first evaluated in a later step");
    if (!same(Fn, I, 9)) rec.say(at + "the deformation gradient before the first step is " + show(Fn, 9));
    if (!same(sn, Z, 6)) rec.say(at + "the stress before the first step is " + show(sn, 6));
    if (!same(st.data(), want.data(), (int)st.size())) rec.say(at + "the state before the first step is " + show(st.data(), (int)st.size()) + ", expected " + show(want.data(), (int)st.size()));
  } else {
    if (!same(Fn, p.past.F, 9)) rec.say(at + "the previous deformation gradient is " + show(Fn, 9) + ", it ended the step before with " + show(p.past.F, 9));
    if (!same(sn, p.past.sig, 6)) rec.say(at + "the previous stress is " + show(sn, 6) + ", it ended the step before with " + show(p.past.sig, 6));
    if (st.size() != p.past.st.size() || !same(st.data(), p.past.st.data(), (int)st.size())) rec.say(at + "the previous state is " + show(st.data(), (int)st.size()) + ", it ended the step before with " + show(p.past.st.data(), (int)p.past.st.size()));
  }
  g.st.resize(st.size());
  for (size_t i = 0; i < st.size(); ++i) g.st[i] = hashed(rec.key, (unsigned long)rec.calls, i);
  if (!rec.host) g.st[10] = (double)id;
  p.now = g;
  p.has_now = true;
  ++p.calls;
  return g.st;
}
struct Memory : nimble::ElasticMaterial {
  int block;
  Memory(nimble::MaterialParameters const& p) : nimble::ElasticMaterial(p), block(atoi(p.GetStringParameters().at("history").c_str() + 1)) {}
  Memory(const Memory&) = default;
  int NumStateVariables() const override { return (int)rec.words[block].name.size(); }
  void GetStateVariableLabel(int i, char label[nimble::MaterialParameters::MAX_MAT_MODEL_STR_LEN]) const override { strcpy(label, rec.words[block].name[i].c_str()); }
  double GetStateVariableInitialValue(int i) const override { return rec.words[block].first[i]; }
  void GetStress(int elem, int n, double tp, double tc, const double* Fn, const double* F, const double* sn, double* s, const double* stn, double* st, nimble::DataManager& dm, bool out) override {
    nimble::ElasticMaterial::GetStress(elem, n, tp, tc, Fn, F, sn, s, stn, st, dm, out);
    int k = NumStateVariables();
    for (int j = 0; j < k * n; ++j) st[j] = -7.25e33 - j;  // the new state is another storage than the old one
    for (int i = 0; i < n; ++i) {
      State x = asked(block, elem, i, tp, tc, Fn + 9 * i, F + 9 * i, sn + 6 * i, s + 6 * i, k ? State(stn + k * i, stn + k * i + k) : State());
      for (int j = 0; j < k; ++j) st[k * i + j] = x[j];
    }
  }
  void GetStress(double tp, double tc, const nimble_kokkos::DeviceFullTensorIntPtSingleEntryView& Fn, const nimble_kokkos::DeviceFullTensorIntPtSingleEntryView& F, const nimble_kokkos::DeviceSymTensorIntPtSingleEntryView& sn, nimble_kokkos::DeviceSymTensorIntPtSingleEntryView s, const DeviceElemState& a, DeviceElemState& b) const override {
    nimble::Material::GetStress(tp, tc, Fn, F, sn, s, a, b);
    double fn[9], f[9], p[6], q[6];
    for (int i = 0; i < 9; ++i) { fn[i] = Fn(i); f[i] = F(i); }
    for (int i = 0; i < 6; ++i) { p[i] = sn(i); q[i] = s(i); }
    State x;
    if (NumStateVariables()) {
      if (a.scalar.extent(0) != 1 || b.scalar.extent(0) != 1 || a.vec3D.extent(0) != 3 || b.vec3D.extent(0) != 3 || a.sym_tensor.extent(0) != 6 || b.sym_tensor.extent(0) != 6 || a.full_tensor.extent(0) != 9 || b.full_tensor.extent(0) != 9) {
        rec.say("block " + std::to_string(block) + ": the state has " + std::to_string(a.scalar.extent(0)) + ", " + std::to_string(a.vec3D.extent(0)) + ", " + std::to_string(a.sym_tensor.extent(0)) + " and " + std::to_string(a.full_tensor.extent(0)) + " entries, expected 1, 3, 6 and 9");
        return;
      }
      // the new state is another storage than the old one
      b.scalar(0) = -7.25e33;
      for (int i = 0; i < 3; ++i) b.vec3D(i) = -7.25e33;
      for (int i = 0; i < 6; ++i) b.sym_tensor(i) = -7.25e33;
      for (int i = 0; i < 9; ++i) b.full_tensor(i) = -7.25e33;
      // scalar, vector, symmetric tensor, full tensor; the first entry of the last is the tag
      x.push_back(a.scalar(0));
      for (int i = 0; i < 3; ++i) x.push_back(a.vec3D(i));
      for (int i = 0; i < 6; ++i) x.push_back(a.sym_tensor(i));
      for (int i = 0; i < 9; ++i) x.push_back(a.full_tensor(i));
    }
    x = asked(block, -1, -1, tp, tc, fn, f, p, q, x);
    if (NumStateVariables()) {
      b.scalar(0) = x[0];
      for (int i = 0; i < 3; ++i) b.vec3D(i) = x[1 + i];
      for (int i = 0; i < 6; ++i) b.sym_tensor(i) = x[4 + i];
      for (int i = 0; i < 9; ++i) b.full_tensor(i) = x[10 + i];
    }
  }
};
struct PortableFactory : nimble_kokkos::MaterialFactory {
  PortableFactory() { add_valid_string_parameter_name("history"); }
  void create() override {
    if (material_params->GetMaterialName(false) != "remembers") return nimble_kokkos::MaterialFactory::create();
    auto h = std::make_shared<Memory>(*material_params);
    material_device = new (Kokkos::kokkos_malloc<>("Material", sizeof(Memory))) Memory(*h);
    material = h;
  }
};
struct HostFactory : nimble::MaterialFactory {
  HostFactory() { add_valid_string_parameter_name("history"); }
  void create() override {
    if (material_params->GetMaterialName(false) != "remembers") return nimble::MaterialFactory::create();
    material = std::make_shared<Memory>(*material_params);
  }
};
struct HistApp : App {
  std::unique_ptr<nimble::MaterialFactoryBase> CreateMaterialFactory() override {
    if (rec.quasi) return std::unique_ptr<nimble::MaterialFactoryBase>(new HostFactory);
    return std::unique_ptr<nimble::MaterialFactoryBase>(new PortableFactory);
  }
};
struct HistHostApp : HistApp {
  std::unique_ptr<nimble::IntegratorBase> CreateIntegrator(nimble::DataManager&, nimble::GenesisMesh& mesh) override { return std::unique_ptr<nimble::IntegratorBase>(new HostRun(*this, mesh)); }
};
const std::vector<std::string>& state_names() {
  static std::vector<std::string> v = {"eqps", "damage", "a", "kappa_x", "stress_measure", "back_stress_xx", "state_1", "state_2", "Temperature", "porosity", "iptdata", "yield_z", "s3"};
  return v;
}
void history(Src& s, int kind) {   // 0 portable, 1 host, 2 quasistatic
  Quasi q;
  Model m;
  if (kind == 2) { m = gen_quasi(s, q); for (auto& x : m.mat) x.neo = false; }
  else {
    Opt o;
    o.maxsteps = 10;
    o.maxcells = 2;
    m = gen_model(s, o);
  }
  rec = Log();
  rec.host = kind != 0;
  rec.quasi = kind == 2;
  rec.t0 = m.t0;
  rec.key = s.below(1000000);
  int nb = (int)m.bid.size();
  rec.words.resize(nb); rec.points.assign(nb, 0); rec.pt.resize(nb); rec.then.resize(nb); rec.now.resize(nb);
  std::set<std::string> all;
  bool state = false;
  for (int b = 0; b < nb; ++b) {
    if (nb > 1 && s.chance(1, 5)) continue;        // a law of the library
    m.mat[b].neo = false;
    m.mat[b].model = "remembers";
    m.mat[b].extra = " history b" + std::to_string(b);
    for (int e = 0; e < m.ne(); ++e) rec.points[b] += m.eb[e] == b ? 8 : 0;
    if (s.chance(1, 5)) continue;                   // no state
    state = state || rec.points[b];
    int n = (int)s.range(1, 5);
    auto p = s.perm((int)state_names().size());
    for (int i = 0; i < n; ++i) {
      rec.words[b].name.push_back(state_names()[p[i]]);
      rec.words[b].first.push_back(s.chance(1, 3) ? 0 : s.usym(10));
      if (rec.points[b]) all.insert(rec.words[b].name.back());
    }
  }
  m.freq = (int)s.pick({1, 1, 1, 2, 3});
  std::vector<std::string> f = {"displacement"};
  auto ip = [&](int k) { return "ipt0" + std::to_string(k); };
  bool eight = s.chance(1, 3);
  std::vector<int> outp;
  for (int k = 1; k <= 8; ++k) if (eight || s.chance(1, 4)) outp.push_back(k);
  std::vector<std::string> ave;
  if (rec.host) {
    for (int k : outp) for (auto& n : all) f.push_back(ip(k) + "_" + n);
    for (auto& n : all) if (s.flip()) { f.push_back(n); ave.push_back(n); }
  } else if (state) {
    for (int k : outp) { f.push_back(ip(k) + "_state_full_tensor"); if (s.flip()) f.push_back(ip(k) + "_state_sym_tensor"); }
    if (s.flip()) f.push_back("state_full_tensor");
    if (s.flip()) f.push_back("state_sym_tensor");
  }
  for (int k : outp) { f.push_back(ip(k) + "_deformation_gradient"); f.push_back(ip(k) + "_stress"); }
  m.fields.clear();
  for (int i : s.perm((int)f.size())) m.fields += (m.fields.empty() ? "" : s.chance(1, 8) ? "  " : " ") + f[i];
  std::string text = deck(s, m);
  s.note() << describe(m) << "\n" << text;
  for (int b = 0; b < nb; ++b) s.note() << "block " << m.bid[b] << ": " << rec.points[b] << " recorded points, " << rec.words[b].name.size() << " state words\n";
  if (kind != 2) { Ref R = reference(m); if (R.bad) throw Discard(); }
  put_text("in.txt", text);
  unlink("m.g"); unlink("r.out.e"); unlink("h.out.e");
  exo_write(to_exo(m), "m.g");
  std::string log;
  int rc;
  if (kind == 1) { host_factory = [] { return std::make_shared<HostFactory>(); }; rc = app<HistHostApp>({"in.txt"}, log); host_factory = [] { return std::make_shared<nimble::MaterialFactory>(); }; }
  else rc = app<HistApp>({"in.txt"}, log);
  if (rec.any) end_step();
  VP_REQUIRE(rec.bad.empty(), rec.bad << "\n" << text);
  VP_REQUIRE(rc == 0 || kind == 2, "the run failed with status " << rc << "\n" << log.substr(0, 2000));
  long pts = 0;
  for (int p : rec.points) pts += p;
  if (pts && rc == 0) VP_REQUIRE((int)rec.steps.size() == m.steps, "the material was evaluated in " << rec.steps.size() << " steps of " << m.steps);
  Exo out;
  VP_REQUIRE(exo_read(kind == 1 ? "h.out.e" : "r.out.e", out), "no readable output file\n" << log.substr(0, 2000));
  auto H = history(out);
  if (rc == 0) check_times(m, out);
  Dev d;
  // what the file says of the points is what the material left there
  std::map<std::pair<int, int>, long> tag;
  std::vector<LD> w(8);
  for (auto& h : H) {
    const Log::Step* st = nullptr;
    for (auto& x : rec.steps) if (x.tc == h.t) st = &x;
    bool start = h.t == m.t0;
    if (!pts) break;
    VP_REQUIRE(start || st, "no step ended at the time of the record " << h.t);
    std::vector<V3> u(m.nn());
    for (int c = 0; c < 3; ++c) for (int i = 0; i < m.nn(); ++i) u[i][c] = h.n.at(std::string("displacement") + XS[c])[i];
    for (int e = 0; e < m.ne(); ++e) {
      int b = m.eb[e];
      if (!rec.points[b]) continue;
      bool has = !rec.words[b].name.empty();
      std::string at = " of element " + std::to_string(e) + " in the record of time " + num(h.t);
      auto val = [&](const std::string& n) {
        auto it = h.e.find(n);
        VP_REQUIRE(it != h.e.end(), "no variable " << n << " in the file");
        return it->second[e];
      };
      std::vector<const Given*> g(8, nullptr);
      if (rec.host) {
        long id = m.eid.empty() ? e : m.eid[e] - 1;
        for (int k = 1; k <= 8; ++k) if (st) {
          auto it = st->pt[b].find(id * 8 + k - 1);
          VP_REQUIRE(it != st->pt[b].end(), "element " << e << " was not evaluated under its id " << id);
          g[k - 1] = &it->second;
        }
        for (int k : outp) for (size_t i = 0; i < rec.words[b].name.size(); ++i) {
          double want = st ? g[k - 1]->st[i] : rec.words[b].first[i], got = val(ip(k) + "_" + rec.words[b].name[i]);
          VP_REQUIRE(got == want, ip(k) << "_" << rec.words[b].name[i] << at << ": " << got << ", the material left " << want);
        }
        for (auto& n : ave) for (size_t i = 0; i < rec.words[b].name.size(); ++i) if (rec.words[b].name[i] == n) {
          LD mx = fabsl(rec.words[b].first[i]);
          if (st) for (int k = 0; k < 8; ++k) mx = std::max(mx, (LD)std::fabs(g[k]->st[i]));
          cmp(d, val(n), average(m, e, u, [&](int k) { return st ? (LD)g[k]->st[i] : (LD)rec.words[b].first[i]; }), 1e-12L * mx * (1 + m.hmax / m.hmin), n + at);
        }
      } else if (has) {
        static const std::string A = "_state_full_tensor", B = "_state_sym_tensor";
        for (int k : outp) {
          double t = val(ip(k) + A + F9[0]);
          if (start) { for (auto c : F9) VP_REQUIRE(val(ip(k) + A + c) == 0, ip(k) << A << c << at << " is not zero"); continue; }
          auto it = st->pt[b].find((long)t);
          VP_REQUIRE(it != st->pt[b].end(), ip(k) << A << at << " belongs to no point: " << t);
          auto& g0 = tag[{e, k}];
          VP_REQUIRE(!g0 || g0 == (long)t, "point " << k << at << " holds the state of another point than before");
          g0 = (long)t;
          g[k - 1] = &it->second;
          for (int c = 0; c < 9; ++c) VP_REQUIRE(val(ip(k) + A + F9[c]) == it->second.st[10 + c], ip(k) << A << F9[c] << at << ": " << val(ip(k) + A + F9[c]) << ", the material left " << it->second.st[10 + c]);
          if (h.e.count(ip(k) + B + S6[0])) for (int c = 0; c < 6; ++c) VP_REQUIRE(val(ip(k) + B + S6[c]) == it->second.st[4 + c], ip(k) << B << S6[c] << at << ": " << val(ip(k) + B + S6[c]) << ", the material left " << it->second.st[4 + c]);
        }
        if (eight || start) for (int x = 0; x < 2; ++x) {
          std::string nm = x ? B.substr(1) : A.substr(1);
          if (!h.e.count(nm + "_xx")) continue;
          for (int c = 0; c < (x ? 6 : 9); ++c) {
            int at0 = (x ? 4 : 10) + c;
            LD mx = 0;
            if (st) for (int k = 0; k < 8; ++k) mx = std::max(mx, (LD)std::fabs(g[k]->st[at0]));
            cmp(d, val(nm + (x ? S6[c] : F9[c])), st ? average(m, e, u, [&](int k) { return (LD)g[k]->st[at0]; }) : 0, 1e-12L * mx * (1 + m.hmax / m.hmin), nm + (x ? S6[c] : F9[c]) + at);
          }
        }
      }
      for (int k : outp) if (g[k - 1]) {
        for (int c = 0; c < 9; ++c) VP_REQUIRE(val(ip(k) + "_deformation_gradient" + F9[c]) == g[k - 1]->F[c], "deformation gradient " << F9[c] << " of point " << k << at << ": " << val(ip(k) + "_deformation_gradient" + F9[c]) << ", the material was given " << g[k - 1]->F[c]);
        for (int c = 0; c < 6; ++c) VP_REQUIRE(val(ip(k) + "_stress" + S6[c]) == g[k - 1]->sig[c], "stress " << S6[c] << " of point " << k << at << ": " << val(ip(k) + "_stress" + S6[c]) << ", the material left " << g[k - 1]->sig[c]);
      }
    }
  }
  if (!rec.host) { std::set<long> u; for (auto& kv : tag) u.insert(kv.second); VP_REQUIRE(u.size() == tag.size(), "two points of the file hold the state of one"); }
  s.maxi("deviation/tolerance", (double)d.worst);
  s.maxi("evaluations", (double)rec.calls);
  s.label("blocks=" + std::to_string(nb));
  if (rc) s.label("ended early");
  int with = 0, without = 0;
  for (int b = 0; b < nb; ++b) if (rec.points[b] && !rec.words[b].name.empty()) ++with; else ++without;
  s.label(with && without ? "mixed blocks" : with ? "all with state" : "none with state");
  if (!outp.empty() && with) s.label("state in the file");
  s.nontrivial(with && rec.steps.size() > 1);
}
void c29_portable(Src& s) { history(s, 0); }
void c29_host(Src& s) { history(s, 1); }
void c29_quasi(Src& s) { history(s, 2); }

// ---------------------------------------------------------------- C11
using nimble::Length;
const Length KINDS[4] = {nimble::SCALAR, nimble::VECTOR, nimble::SYMMETRIC_TENSOR, nimble::FULL_TENSOR};
int width(Length l, int dim) { return l == nimble::SCALAR ? 1 : l == nimble::VECTOR ? dim : l == nimble::SYMMETRIC_TENSOR ? (dim == 3 ? 6 : 3) : dim * dim; }
std::vector<std::string> parts(Length l, int dim) {   // suffixes, in storage order
  if (l == nimble::SCALAR) return {""};
  if (l == nimble::VECTOR) return dim == 3 ? std::vector<std::string>{"_x", "_y", "_z"} : std::vector<std::string>{"_x", "_y"};
  if (l == nimble::SYMMETRIC_TENSOR) return dim == 3 ? std::vector<std::string>(S6, S6 + 6) : std::vector<std::string>{"_xx", "_yy", "_xy"};
  return dim == 3 ? std::vector<std::string>(F9, F9 + 9) : std::vector<std::string>{"_xx", "_yy", "_xy", "_yx"};
}
std::string field_name(Src& s, std::set<std::string>& used) {
  static const std::vector<std::string> base = {"displacement", "velocity", "force", "stress", "deformation_gradient", "f", "Mass", "lumped_mass", "trial_x", "strain_xx", "back_stress", "iptvalue", "temperature", "volume_fraction", "a_b_c", "q9"};
  for (;;) {
    std::string n = s.pick(base);
    if (s.chance(1, 3)) n += std::to_string(s.below(30));
    std::string l = n;
    for (char& c : l) c = (char)tolower(c);
    bool clash = false;      // neither the name nor one of its parts may be another field's
    for (auto& u : used) if (u == l || (u.size() > l.size() && u.compare(0, l.size() + 1, l + "_") == 0) || (l.size() > u.size() && l.compare(0, u.size() + 1, u + "_") == 0)) clash = true;
    if (clash) { if (used.size() > 12) n += "n" + std::to_string(used.size()); else continue; l = n; for (char& c : l) c = (char)tolower(c); if (used.count(l)) continue; }
    used.insert(l);
    return n;
  }
}
struct Bare : nimble::ModelData { using nimble::ModelData::GetNodeDataComponent; };
void c11_host(Src& s) {
  int dim = s.chance(1, 4) ? 2 : 3;
  Bare md;
  md.SetDimension(dim);
  std::set<std::string> used;
  struct NF { std::string label; Length l; int id, n; std::vector<double> v; };
  struct EF { std::string label; Length l; int off; };         // label without the point
  struct BF { int id, ne, npt, per; std::vector<EF> f; std::vector<double> o, n; std::vector<std::string> comp; };
  std::vector<NF> nf;
  std::vector<BF> bf;
  int nn = (int)s.size(1, 12), nfields = (int)s.size(1, 6), nblocks = (int)s.size(1, 3);
  double next = 1;
  auto ids = gen_ids(s, nblocks, 50);
  struct Pool { std::string label; Length l; };
  std::vector<Pool> pool;
  int np = (int)s.size(1, 5);
  auto decl_nodes = [&](int k) {
    for (int i = 0; i < k; ++i) {
      NF f;
      f.label = field_name(s, used);
      f.l = KINDS[s.chance(1, 4) ? s.below(4) : s.below(2)];
      f.n = nn;
      f.id = md.AllocateNodeData(f.l, f.label, nn);
      f.v.assign(nn * width(f.l, dim), 0);
      nf.push_back(f);
    }
  };
  int early = (int)s.below(nfields + 1);
  decl_nodes(early);
  for (int i = 0; i < np; ++i) pool.push_back({field_name(s, used), KINDS[s.below(4)]});
  std::map<int, int> ne;
  for (int b = 0; b < nblocks; ++b) {
    BF B;
    B.id = ids[b];
    B.ne = (int)s.size(1, 5);
    B.npt = (int)s.pick({1, 8, 8, 12});
    B.per = 0;
    for (int i : s.perm(np)) {
      if (!B.f.empty() && s.flip()) continue;
      B.f.push_back({pool[i].label, pool[i].l, B.per});
      B.per += width(pool[i].l, dim);
    }
    std::vector<std::pair<std::string, Length>> d;
    for (int p = 1; p <= B.npt; ++p) for (auto& f : B.f) {
      std::string pre = std::string(p < 10 ? "ipt0" : "ipt") + std::to_string(p) + "_";
      d.push_back({nimble::AddIntegrationPointPrefix(f.label, p), f.l});
      VP_REQUIRE(d.back().first == pre + f.label, "prefix of point " << p << ": " << d.back().first);
      for (auto& c : parts(f.l, dim)) B.comp.push_back(pre + f.label + c);
    }
    if (s.chance(1, 4) && d.size() > 1) {      // in two goes
      size_t cut = 1 + s.below(d.size() - 1);
      md.DeclareElementData(B.id, std::vector<std::pair<std::string, Length>>(d.begin(), d.begin() + cut));
      md.DeclareElementData(B.id, std::vector<std::pair<std::string, Length>>(d.begin() + cut, d.end()));
    } else md.DeclareElementData(B.id, d);
    B.o.assign((size_t)B.ne * B.comp.size(), 0);
    B.n = B.o;
    ne[B.id] = B.ne;
    bf.push_back(B);
  }
  md.AllocateElementData(ne);
  decl_nodes(nfields - early);
  std::set<int> nid;
  for (auto& f : nf) { nid.insert(f.id); VP_REQUIRE(md.GetFieldId(f.label) == f.id, "field " << f.label << " is found under id " << md.GetFieldId(f.label) << ", it was given " << f.id); VP_REQUIRE(md.GetField(f.id).label_ == f.label && md.GetField(f.id).length_ == f.l && md.GetField(f.id).relation_ == nimble::NODE, "field " << f.label << " is described as " << md.GetField(f.id).label_); }
  VP_REQUIRE(nid.size() == nf.size(), "two nodal fields share an id");
  // what is asked for output
  std::vector<std::string> want_n, ask;
  std::map<int, std::vector<std::string>> want_e, want_d;
  for (auto& B : bf) { want_e[B.id]; want_d[B.id]; }
  std::set<std::string> asked_once;
  int na = (int)s.size(0, 6);
  for (int i = 0; i < na; ++i) {
    int k = (int)s.below(9);
    std::string t;
    if (k < 4 && !nf.empty()) {
      auto& f = nf[s.below(nf.size())];
      auto p = parts(f.l, dim);
      if (k < 2) { t = f.label; if (asked_once.insert(t).second) for (auto& c : p) want_n.push_back(f.label + c); else continue; }
      else { t = f.label + s.pick(p); if (asked_once.insert(t).second) want_n.push_back(t); else continue; }
    } else if (k < 8) {
      auto& B = bf[s.below(bf.size())];
      auto& f = s.pick(B.f);
      auto p = parts(f.l, dim);
      std::string pre, c = s.pick(p);
      if (k < 6) { int q = (int)s.range(1, B.npt); pre = std::string(q < 10 ? "ipt0" : "ipt") + std::to_string(q) + "_"; }
      bool whole = k & 1;
      t = pre + f.label + (whole ? "" : c);
      if (!asked_once.insert(t).second) continue;
      for (auto& x : bf) for (auto& cc : whole ? p : std::vector<std::string>{c}) {
        std::string l = f.label + cc;
        bool has = false;
        for (auto& y : x.comp) has = has || (pre.empty() ? y.substr(6) == l : y == pre + l);
        if (!has) continue;
        if (!pre.empty()) want_e[x.id].push_back(pre + l);
        else { if (std::find(want_d[x.id].begin(), want_d[x.id].end(), l) != want_d[x.id].end()) continue; want_d[x.id].push_back(l); }
      }
    } else { t = "volume"; if (!asked_once.insert(t).second) continue; for (auto& x : bf) want_d[x.id].push_back(t); }
    ask.push_back(t);
  }
  // asking for a part after the whole of an average gives it twice; leave that out
  for (auto& kv : want_d) { auto v = kv.second; std::sort(v.begin(), v.end()); if (std::adjacent_find(v.begin(), v.end()) != v.end()) throw Discard(); }
  for (size_t i = 0; i < ask.size(); ++i) for (size_t j = i + 1; j < ask.size(); ++j) for (auto& B : bf) for (auto& f : B.f) if (ask[i] == f.label && ask[j].size() > f.label.size() && ask[j].compare(0, f.label.size() + 1, f.label + "_") == 0) throw Discard();
  std::string str;
  for (auto& t : ask) str += (str.empty() ? "" : s.chance(1, 8) ? "  " : " ") + t;
  s.note() << dim << "D, " << nn << " nodes, output '" << str << "'\n";
  for (auto& f : nf) s.note() << "node field " << f.label << " length " << (int)f.l << "\n";
  for (auto& B : bf) { s.note() << "block " << B.id << ": " << B.ne << " elements, " << B.npt << " points,"; for (auto& f : B.f) s.note() << " " << f.label << ":" << (int)f.l; s.note() << "\n"; }
  md.SpecifyOutputFields(str);
  VP_REQUIRE(md.GetNodeDataLabelsForOutput() == want_n, "nodal output labels for '" << str << "'");
  VP_REQUIRE(md.GetElementDataLabelsForOutput() == want_e, "element output labels for '" << str << "'");
  VP_REQUIRE(md.GetDerivedElementDataLabelsForOutput() == want_d, "derived output labels for '" << str << "'");
  for (auto& B : bf) VP_REQUIRE(md.GetElementDataLabels().at(B.id) == B.comp, "component labels of block " << B.id);
  std::vector<std::vector<double>> no;
  std::map<int, std::vector<std::vector<double>>> eo;
  int writes = 0;
  auto check_all = [&](const char* when) {
    for (auto& f : nf) {
      double* p = md.GetNodeData(f.id);
      for (size_t i = 0; i < f.v.size(); ++i) VP_REQUIRE(p[i] == f.v[i], "entry " << i << " of node field " << f.label << " is " << p[i] << " after " << when << ", " << f.v[i] << " was written");
      if (f.l == nimble::SCALAR) { auto v = md.GetScalarNodeData(f.id); for (int i = 0; i < nn; ++i) VP_REQUIRE(v(i) == f.v[i], "scalar field " << f.label << " at node " << i); }
      if (f.l == nimble::VECTOR && dim == 3) { auto v = md.GetVectorNodeData(f.label); for (int i = 0; i < nn; ++i) for (int c = 0; c < 3; ++c) VP_REQUIRE(v(i, c) == f.v[3 * i + c], "vector field " << f.label << " at node " << i); }
    }
    for (auto& B : bf) VP_REQUIRE(md.GetElementDataOld(B.id) == B.o && md.GetElementDataNew(B.id) == B.n, "element data of block " << B.id << " after " << when);
  };
  check_all("allocation");
  int nw = (int)s.size(1, 15);
  for (int w = 0; w < nw; ++w) {
    int k = (int)s.below(4);
    if (k == 0 && !nf.empty()) {
      auto& f = nf[s.below(nf.size())];
      size_t i = s.below(f.v.size());
      f.v[i] = next++;
      if (f.l == nimble::SCALAR && s.flip()) md.GetScalarNodeData(f.label)(i) = f.v[i];
      else if (f.l == nimble::VECTOR && dim == 3 && s.flip()) md.GetVectorNodeData(f.id)(i / 3, i % 3) = f.v[i];
      else md.GetNodeData(f.id)[i] = f.v[i];
    } else if (k == 1 && !nf.empty()) {
      auto& f = nf[s.below(nf.size())];
      for (size_t i = 0; i < f.v.size(); ++i) md.GetNodeData(f.id)[i] = f.v[i] = next++;
    } else {
      auto& B = bf[s.below(bf.size())];
      bool nw = s.chance(2, 3);
      auto& v = nw ? B.n : B.o;
      auto& t = nw ? md.GetElementDataNew(B.id) : md.GetElementDataOld(B.id);
      for (size_t i = s.below(v.size()); i < v.size(); i += 1 + s.below(3)) t.at(i) = v[i] = next++;
    }
    ++writes;
  }
  check_all("the writes");
  md.GetNodeDataForOutput(no);
  VP_REQUIRE(no.size() == want_n.size(), "number of nodal arrays for output");
  for (size_t i = 0; i < no.size(); ++i) for (auto& f : nf) {
    auto p = parts(f.l, dim);
    for (size_t c = 0; c < p.size(); ++c) if (f.label + p[c] == want_n[i]) {
      VP_REQUIRE((int)no[i].size() == nn, "length of the array of " << want_n[i]);
      for (int n = 0; n < nn; ++n) VP_REQUIRE(no[i][n] == f.v[n * p.size() + c], want_n[i] << " of node " << n << " goes out as " << no[i][n] << ", stored is " << f.v[n * p.size() + c]);
    }
  }
  md.GetElementDataForOutput(eo);
  for (auto& B : bf) {
    auto& want = want_e[B.id];
    VP_REQUIRE(eo[B.id].size() == want.size(), "number of element arrays for block " << B.id);
    for (size_t i = 0; i < want.size(); ++i) {
      size_t c = std::find(B.comp.begin(), B.comp.end(), want[i]) - B.comp.begin();
      VP_REQUIRE((int)eo[B.id][i].size() == B.ne, "length of the array of " << want[i]);
      for (int e = 0; e < B.ne; ++e) VP_REQUIRE(eo[B.id][i][e] == B.n[e * B.comp.size() + c], want[i] << " of element " << e << " of block " << B.id << " goes out as " << eo[B.id][i][e] << ", stored is " << B.n[e * B.comp.size() + c]);
    }
  }
  check_all("output");
  s.label(dim == 2 ? "2D" : "3D");
  s.label("blocks=" + std::to_string(nblocks));
  s.maxi("fields", (double)(nf.size() + pool.size()));
  s.nontrivial(nf.size() + pool.size() > 2 && writes > 2 && !ask.empty());
}
void c11_portable(Src& s) {
  namespace nk = nimble_kokkos;
  nk::ModelData md;
  md.SetDimension(3);
  std::set<std::string> used;
  struct F { int where; std::string label; int kind, block, id, n; std::vector<double> o, v; };   // where: 0 node, 1 element, 2 point
  std::vector<F> fs;
  std::map<std::string, int> known;
  int nn = (int)s.size(1, 20), nblocks = (int)s.size(1, 3), nf = (int)s.size(1, 10);
  auto ids = gen_ids(s, nblocks, 50);
  std::vector<int> ne;
  for (int b = 0; b < nblocks; ++b) ne.push_back((int)s.size(1, 6));
  double next = 1;
  std::vector<std::string> ename, pname;
  for (int i = 0; i < nf; ++i) {
    F f;
    f.where = (int)s.below(3);
    f.block = (int)s.below(nblocks);
    static const int wn[2] = {0, 1}, we[3] = {0, 2, 3};
    f.kind = f.where == 0 ? wn[s.below(2)] : f.where == 1 ? we[s.below(3)] : (int)s.below(4);
    // the same field on another block, or an average under the name of the point data, share the name
    bool again = false;
    if (f.where && s.chance(1, 2)) {
      std::vector<std::pair<std::string, int>> may;
      for (auto& g : fs) if (g.where && !(f.where == 1 && g.kind == 1)) {
        bool taken = false;
        for (auto& h : fs) taken = taken || (h.label == g.label && h.where == f.where && h.block == f.block);
        if (!taken) may.push_back({g.label, g.kind});
      }
      if (!may.empty()) { auto& p = s.pick(may); f.label = p.first; f.kind = p.second; again = true; }
    }
    if (!again) f.label = field_name(s, used);
    int w = width(KINDS[f.kind], 3);
    std::vector<double> init;
    if (f.where == 2 && s.flip()) for (int c = 0; c < w; ++c) init.push_back(next++);
    if (f.where == 0) { f.n = nn; f.id = md.AllocateNodeData(KINDS[f.kind], f.label, nn); f.v.assign(nn * w, 0); }
    else if (f.where == 1) { f.n = ne[f.block]; f.id = md.AllocateElementData(ids[f.block], KINDS[f.kind], f.label, f.n); f.v.assign(f.n * w, 0); }
    else {
      f.n = ne[f.block];
      f.id = init.empty() && s.flip() ? md.AllocateIntegrationPointData(ids[f.block], KINDS[f.kind], f.label, f.n) : md.AllocateIntegrationPointData(ids[f.block], KINDS[f.kind], f.label, f.n, init);
      f.v.assign(f.n * 8 * w, 0);
      if (!init.empty()) for (size_t j = 0; j < f.v.size(); ++j) f.v[j] = init[j % w];
      f.o = f.v;
    }
    s.note() << (f.where == 0 ? "node" : f.where == 1 ? "element" : "point") << " field " << f.label << " kind " << f.kind << " block " << ids[f.block] << " x" << f.n << (init.empty() ? "" : " with initial values") << "\n";
    if (known.count(f.label)) VP_REQUIRE(known[f.label] == f.id, "the field " << f.label << " has two ids");
    for (auto& kv : known) VP_REQUIRE(kv.first == f.label || kv.second != f.id, "the fields " << kv.first << " and " << f.label << " share an id");
    known[f.label] = f.id;
    VP_REQUIRE(md.GetFieldId(f.label) == f.id, "id of " << f.label);
    fs.push_back(f);
  }
  // each entry of a field: fn(reference to it, its place in the shadow)
  auto visit = [&](F& f, bool host, bool old, const std::function<void(double&, size_t)>& fn) {
    int b = ids[f.block], w = width(KINDS[f.kind], 3);
    auto st = old ? nimble::STEP_N : nimble::STEP_NP1;
    auto one = [&](auto v) { VP_REQUIRE((int)v.extent(0) == f.n, "extent of " << f.label); for (int i = 0; i < f.n; ++i) fn(v(i), i); };
    auto two = [&](auto v) { VP_REQUIRE((int)v.extent(0) == f.n && (int)v.extent(1) == w, "extents of " << f.label); for (int i = 0; i < f.n; ++i) for (int c = 0; c < w; ++c) fn(v(i, c), (size_t)i * w + c); };
    auto three = [&](auto v) { VP_REQUIRE((int)v.extent(0) == f.n && v.extent(1) == 8 && (int)v.extent(2) == w, "extents of " << f.label); for (int i = 0; i < f.n; ++i) for (int p = 0; p < 8; ++p) for (int c = 0; c < w; ++c) fn(v(i, p, c), ((size_t)i * 8 + p) * w + c); };
    if (f.where == 0 && f.kind == 0) { if (host) one(md.GetHostScalarNodeData(f.id)); else one(md.GetDeviceScalarNodeData(f.id)); }
    else if (f.where == 0) { if (host) two(md.GetHostVectorNodeData(f.id)); else two(md.GetDeviceVectorNodeData(f.id)); }
    else if (f.where == 1 && f.kind == 0) { if (host) one(md.GetHostScalarElementData(b, f.id)); else one(md.GetDeviceScalarElementData(b, f.id)); }
    else if (f.where == 1 && f.kind == 2) { if (host) two(md.GetHostSymTensorElementData(b, f.id)); else two(md.GetDeviceSymTensorElementData(b, f.id)); }
    else if (f.where == 1) { if (host) two(md.GetHostFullTensorElementData(b, f.id)); else two(md.GetDeviceFullTensorElementData(b, f.id)); }
    else if (f.kind == 0) three(md.GetDeviceScalarIntegrationPointData(b, f.id, st));
    else if (f.kind == 1) three(md.GetDeviceVectorIntegrationPointData(b, f.id, st));
    else if (f.kind == 2) { if (host) three(md.GetHostSymTensorIntegrationPointData(b, f.id, st)); else three(md.GetDeviceSymTensorIntegrationPointData(b, f.id, st)); }
    else { if (host) three(md.GetHostFullTensorIntegrationPointData(b, f.id, st)); else three(md.GetDeviceFullTensorIntegrationPointData(b, f.id, st)); }
  };
  auto what = [&](F& f) { return std::string(f.where == 0 ? "node" : f.where == 1 ? "element" : "point") + " field " + f.label + (f.where ? " of block " + std::to_string(ids[f.block]) : ""); };
  auto check_all = [&](const char* when) {
    for (auto& f : fs) for (int old = 0; old < (f.where == 2 ? 2 : 1); ++old) {
      auto& sh = old ? f.o : f.v;
      visit(f, false, old, [&](double& x, size_t i) { VP_REQUIRE(x == sh[i], "entry " << i << " of " << what(f) << (old ? " (old)" : "") << " is " << x << " after " << when << ", expected " << sh[i]); });
    }
  };
  check_all("allocation");
  auto sorted = [](std::vector<std::string> v) { std::sort(v.begin(), v.end()); return v; };
  std::vector<std::string> ls, lv;
  for (auto& f : fs) if (f.where == 0) (f.kind ? lv : ls).push_back(f.label);
  VP_REQUIRE(sorted(md.GetScalarNodeDataLabels()) == sorted(ls) && sorted(md.GetVectorNodeDataLabels()) == sorted(lv), "labels of the node fields");
  for (int b = 0; b < nblocks; ++b) {
    std::vector<std::string> a, c;
    bool any = false;
    for (auto& f : fs) if (f.where == 2 && f.block == b) { any = true; if (f.kind == 2) a.push_back(f.label); if (f.kind == 3) c.push_back(f.label); }
    if (!any) continue;
    VP_REQUIRE(sorted(md.GetSymmetricTensorIntegrationPointDataLabels(ids[b])) == sorted(a), "labels of the symmetric tensors of block " << ids[b]);
    VP_REQUIRE(sorted(md.GetFullTensorIntegrationPointDataLabels(ids[b])) == sorted(c), "labels of the full tensors of block " << ids[b]);
  }
  int nops = (int)s.size(1, 15), moves = 0, scat = 0;
  for (int k = 0; k < nops; ++k) {
    F& f = fs[s.below(fs.size())];
    int op = (int)s.below(5);
    if (f.where == 0 && op >= 2) {      // through a connectivity
      int nel = (int)s.size(1, 8), npe = (int)s.pick({1, 2, 4, 8}), w = f.kind ? 3 : 1;
      nk::DeviceElementConnectivityView cv("c", nel * npe);
      std::vector<int> conn;
      for (int i = 0; i < nel * npe; ++i) { conn.push_back((int)s.below(nn)); cv(i) = conn.back(); }
      if (npe > 8) continue;
      if (op == 2) {
        if (f.kind) { nk::DeviceVectorNodeGatheredView g("g", nel); md.GatherVectorNodeData(f.id, nel, npe, cv, g); for (int e = 0; e < nel; ++e) for (int n = 0; n < npe; ++n) for (int c = 0; c < 3; ++c) VP_REQUIRE(g(e, n, c) == f.v[3 * conn[e * npe + n] + c], "gathered " << f.label); }
        else { nk::DeviceScalarNodeGatheredView g("g", nel); md.GatherScalarNodeData(f.id, nel, npe, cv, g); for (int e = 0; e < nel; ++e) for (int n = 0; n < npe; ++n) VP_REQUIRE(g(e, n) == f.v[conn[e * npe + n]], "gathered " << f.label); }
      } else {
        // whole numbers, so that the order of the sums does not matter
        bool fresh = op == 4 && !f.kind;      // the version that goes through a scatter view, onto zeros
        if (fresh) { visit(f, false, false, [](double& x, size_t) { x = 0; }); std::fill(f.v.begin(), f.v.end(), 0); }
        nk::DeviceVectorNodeGatheredView gv("g", nel);
        nk::DeviceScalarNodeGatheredView gs("g", nel);
        for (int e = 0; e < nel; ++e) for (int n = 0; n < npe; ++n) for (int c = 0; c < w; ++c) { double x = (double)s.range(-1000, 1000); if (w == 3) gv(e, n, c) = x; else gs(e, n) = x; f.v[w * conn[e * npe + n] + c] += x; }
        if (w == 3) md.ScatterVectorNodeData(f.id, nel, npe, cv, gv);
        else if (fresh) md.ScatterScalarNodeDataUsingKokkosScatterView(f.id, nel, npe, cv, gs);
        else md.ScatterScalarNodeData(f.id, nel, npe, cv, gs);
        ++scat;
      }
      continue;
    }
    bool old = f.where == 2 && s.flip();
    auto& sh = old ? f.o : f.v;
    bool host = f.where == 2 && f.kind < 2 ? false : s.flip();
    size_t from = s.below(sh.size()), step = 1 + s.below(4);
    visit(f, host, old, [&](double& x, size_t i) { if (i >= from && (i - from) % step == 0) x = sh[i] = next++; });
    if (host) {   // the device copy follows the host one when it is told to
      if (f.where == 0 && f.kind == 0) Kokkos::deep_copy(md.GetDeviceScalarNodeData(f.id), md.GetHostScalarNodeData(f.id));
      else if (f.where == 0) Kokkos::deep_copy(md.GetDeviceVectorNodeData(f.id), md.GetHostVectorNodeData(f.id));
      else visit(f, false, old, [&](double& x, size_t i) { x = sh[i]; });
    }
    ++moves;
  }
  check_all("the writes");
  for (auto& f : fs) if (f.where == 0) {   // the views the integrators work on
    if (f.kind) { auto v = md.GetVectorNodeData(f.label); for (int i = 0; i < nn; ++i) for (int c = 0; c < 3; ++c) { v(i, c) = f.v[3 * i + c] = next++; } auto h = md.GetHostVectorNodeData(f.id); for (int i = 0; i < nn; ++i) for (int c = 0; c < 3; ++c) VP_REQUIRE(h(i, c) == f.v[3 * i + c], "vector view of " << f.label); }
    else { auto v = md.GetScalarNodeData(f.label); for (int i = 0; i < nn; ++i) v(i) = f.v[i] = next++; auto h = md.GetHostScalarNodeData(f.id); for (int i = 0; i < nn; ++i) VP_REQUIRE(h(i) == f.v[i], "scalar view of " << f.label); }
  }
  s.label("blocks=" + std::to_string(nblocks));
  if (scat) s.label("scattered");
  s.maxi("fields", (double)fs.size());
  s.nontrivial(fs.size() > 2 && moves > 1);
}
}  // namespace
int main(int argc, char** argv) {
  std::vector<Check> c = {
    {"C29", "past-portable", c29_portable, 2500, 40000, "explicit runs of a material with state of every kind plugged in: times, deformation gradient, stress and state handed to it are what it was given and left at the end of the previous step, and the file shows them; non-trivial: a block with state, several steps", {}},
    {"C29", "past-host", c29_host, 2500, 40000, "the same for explicit runs on host data, with named state words and initial values; non-trivial: a block with state, several steps", {}},
    {"C29", "past-quasistatic", c29_quasi, 1200, 20000, "the same for quasistatic runs: the past of every iteration of a step is the accepted end of the previous step; non-trivial: a block with state, several steps", {}},
    {"C11", "fields-host", c11_host, 200000, 4000000, "the host model data: node fields of every kind and declared element fields per integration point, in 2D and 3D, written in any order; every field holds what was written to it and no other, output requests select the labels and values they name; non-trivial: three fields or more, several writes, something requested", {}},
    {"C11", "fields-portable", c11_portable, 200000, 4000000, "the portable model data: node, element and integration-point fields of every kind on several blocks, both states, initial values, both copies, gathers and scatters through any connectivity; non-trivial: three fields or more, several writes", {}},
  };
  return vp_main(argc, argv, c, run_hooks());
}
