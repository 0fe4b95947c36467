// whole runs of the application in this process
//
// The calls that start and stop MPI and Kokkos, which can happen once per process only, are replaced
// at link time and made once by the harness instead.
#pragma once
#include <mpi.h>
#include <unistd.h>
#include <Kokkos_Core.hpp>
#include <fstream>
#include <iostream>
#include <numeric>
#include "nimble.h"
#include "nimble_contact_interface.h"
#include "nimble_contact_manager.h"
#include "nimble_vector_communicator.h"
#include "sim.h"
using namespace vp;
using namespace sim;

extern "C" {
int __real_MPI_Init(int*, char***);
int __wrap_MPI_Init(int*, char***) { return MPI_SUCCESS; }
int __wrap_MPI_Init_thread(int*, char***, int want, int* got) { if (got) *got = want; return MPI_SUCCESS; }
int __wrap_MPI_Finalize() { return MPI_SUCCESS; }
void __real__ZN6Kokkos10initializeERiPPc(int&, char**);
void __wrap__ZN6Kokkos10initializeERiPPc(int&, char**) {}
void __wrap__ZN6Kokkos8finalizeEv() {}
}
namespace {
void put_text(const std::string& path, const std::string& t) { std::ofstream f(path, std::ios::binary); f << t; }
struct Swap {
  std::ostringstream o;
  std::streambuf *a, *b;
  Swap() : a(std::cout.rdbuf(o.rdbuf())), b(std::cerr.rdbuf(o.rdbuf())) {}
  ~Swap() { std::cout.rdbuf(a); std::cerr.rdbuf(b); }
};
struct Run { int rc = 0; std::string log; Exo out; bool have = false; };
// The repository ships no contact search of its own (ArborX and BVH are absent here): every node is
// tested against every triangle, over all ranks, with the repository's own projection and enforcement.
struct Search : nimble::ContactInterface {
  int mode = 0;
  using CE = nimble::ContactEntity;
  template <typename V> std::vector<CE> everywhere(const V& v, int& first) {
    int n = (int)v.extent(0), np = 1, me = 0;
    MPI_Comm_size(MPI_COMM_WORLD, &np);
    MPI_Comm_rank(MPI_COMM_WORLD, &me);
    std::vector<CE> mine;
    for (int i = 0; i < n; ++i) mine.push_back(v(i));
    std::vector<int> k(np), at(np, 0);
    int bytes = n * (int)sizeof(CE);
    MPI_Allgather(&bytes, 1, MPI_INT, k.data(), 1, MPI_INT, MPI_COMM_WORLD);
    for (int r = 1; r < np; ++r) at[r] = at[r - 1] + k[r - 1];
    std::vector<CE> all((at.back() + k.back()) / sizeof(CE));
    MPI_Allgatherv(mine.data(), bytes, MPI_BYTE, all.data(), k.data(), at.data(), MPI_BYTE, MPI_COMM_WORLD);
    first = at[me] / (int)sizeof(CE);
    return all;
  }
  void DoSearchAndEnforcement(nimble_kokkos::DeviceContactEntityArrayView nodes, nimble_kokkos::DeviceContactEntityArrayView faces, nimble::KokkosPenaltyContactEnforcement enf) override {
    int n0, f0, nn = (int)nodes.extent(0), nf = (int)faces.extent(0);
    auto N = everywhere(nodes, n0), F = everywhere(faces, f0);
    for (int i = 0; i < nn; ++i) nodes(i).set_contact_status(false);
    for (int i = 0; i < nf; ++i) faces(i).set_contact_status(false);
    int np = 1;
    MPI_Comm_size(MPI_COMM_WORLD, &np);
    for (int i = 0; i < (int)N.size(); ++i)
      for (int j = 0; j < (int)F.size(); ++j) {
        bool in = false;
        double gap = 0, n[3], b[3];
        nimble::ContactManager::Projection(N[i], F[j], in, gap, n, b);
        if (!in) continue;
        bool mn = i >= n0 && i < n0 + nn, mf = j >= f0 && j < f0 + nf;
        if (mn) nodes(i - n0).set_contact_status(true);
        if (mf) faces(j - f0).set_contact_status(true);
        if (np == 1 && mode == 1) {
          nimble::PenaltyContactEnforcement e;
          e.penalty = enf.penalty;
          e.EnforceContact(N[i], F[j], gap, n, b, enf.contact_manager_force);
        } else if (np == 1 && mode == 2) {
          double cp[3] = {N[i].coord_1_x_ - gap * n[0], N[i].coord_1_y_ - gap * n[1], N[i].coord_1_z_ - gap * n[2]};
          EnforceNodeFaceInteraction(N[i], F[j], 1, gap, n, cp);
        } else {   // each rank adds the share of its own entities
          double f[3];
          for (int d = 0; d < 3; ++d) f[d] = enf.penalty * gap * n[d];
          if (mf) { F[j].SetNodalContactForces(f, b); F[j].ScatterForceToContactManagerForceVector(enf.contact_manager_force); }
          if (mn) { N[i].SetNodalContactForces(f); N[i].ScatterForceToContactManagerForceVector(enf.contact_manager_force); }
        }
      }
  }
};
int search_mode = -1;      // >= 0: runs get this contact search
struct App : nimble::NimbleApplication {
  std::unique_ptr<nimble::ContactInterface> CreateContactInterface() override {
    if (search_mode < 0) return std::unique_ptr<nimble::ContactInterface>(new nimble::ContactInterface);
    std::unique_ptr<Search> s(new Search);
    s->mode = search_mode;
    return std::move(s);
  }
};
template <class A = App> int app(const std::vector<std::string>& args, std::string& log) {
  std::vector<std::string> a = {"NimbleSM"};
  a.insert(a.end(), args.begin(), args.end());
  std::vector<char*> p;
  for (auto& s : a) p.push_back(&s[0]);
  p.push_back(nullptr);
  Swap sw;
  int rc;
  {
    A ap;
    rc = ap.Run((int)a.size(), p.data());
  }
  log = sw.o.str();
  return rc;
}
Run serial(Src& s, const Model& m, const std::string& text, std::vector<std::string> opts = {}) {
  Run r;
  put_text("in.txt", text);
  unlink("m.g"); unlink("r.out.e");
  exo_write(to_exo(m), "m.g");
  opts.push_back("in.txt");
  r.rc = app(opts, r.log);
  VP_REQUIRE(r.rc == 0, "the run failed with status " << r.rc << "\n" << text << r.log.substr(0, 2000));
  r.have = exo_read("r.out.e", r.out);
  VP_REQUIRE(r.have, "no readable output file\n" << r.log.substr(0, 2000));
  return r;
}
const std::vector<std::string>& nodal() { static std::vector<std::string> v = {"displacement", "velocity", "acceleration", "internal_force", "external_force", "contact_force", "reference_coordinate"}; return v; }
std::string all_fields(Src& s, bool all) {
  std::vector<std::string> f = {"displacement", "velocity", "acceleration", "internal_force", "lumped_mass", "reference_coordinate", "volume", "stress", "deformation_gradient"};
  auto p = s.perm((int)f.size());
  std::string r;
  for (int i : p) r += (r.empty() ? "" : " ") + f[i];
  return r;
}
static const char* XS[3] = {"_x", "_y", "_z"};
static const char* S6[6] = {"_xx", "_yy", "_zz", "_xy", "_yz", "_zx"};
static const char* F9[9] = {"_xx", "_yy", "_zz", "_xy", "_yz", "_zx", "_yx", "_zy", "_xz"};
int idx(const std::vector<std::string>& v, const std::string& n) { for (size_t i = 0; i < v.size(); ++i) if (v[i] == n) return (int)i; return -1; }
// element order of the file: block by block
struct Hist {   // one record read back, in the model's own numbering
  double t;
  std::map<std::string, std::vector<double>> n, e;
};
std::vector<Hist> history(const Exo& o) {
  std::vector<Hist> h;
  for (size_t k = 0; k < o.times.size(); ++k) {
    Hist x;
    x.t = o.times[k];
    for (size_t i = 0; i < o.nvars.size(); ++i) x.n[o.nvars[i]] = o.nval[k][i];
    for (size_t i = 0; i < o.evars.size(); ++i) {
      auto& v = x.e[o.evars[i]];
      for (auto& b : o.blocks) if (b.n()) { auto it = o.evalv[k][i].find(b.id); if (it != o.evalv[k][i].end()) v.insert(v.end(), it->second.begin(), it->second.end()); else v.insert(v.end(), b.n(), NAN); }
    }
    h.push_back(x);
  }
  return h;
}
struct Dev { LD worst = 0; };
inline void cmp(Dev& d, double got, LD want, LD tol, const std::string& what) {
  if (!(fabsl(got - want) <= tol)) VP_FAIL(what << ": " << got << ", expected " << (double)want << " (tolerance " << (double)tol << ", off by " << (double)fabsl(got - want) << ")");
  if (tol > 0) d.worst = std::max(d.worst, fabsl(got - want) / tol);
}
LD average(const Model& m, int e, const std::vector<V3>& u, const std::function<LD(int)>& f) {
  Hex x = m.hex(e, &u);
  LD s = 0, w = 0;
  for (int q = 0; q < 8; ++q) { LD j = det(jac(x, gauss(q))); s += j * f(q); w += j; }
  return s / w;
}
// compares every field a file holds with the reference record
void compare_record(Dev& d, const Model& m, const Ref& R, const Rec& r, const Hist& h, bool first, const std::vector<int>* nodes = nullptr, const std::vector<int>* elems = nullptr) {
  const Tol& q = R.tol;
  std::ostringstream w0;
  w0.precision(17);
  w0 << " in the record of time " << h.t;
  std::string at = w0.str();
  auto N = [&](int i) { return nodes ? (*nodes)[i] : i; };
  auto E = [&](int i) { return elems ? (*elems)[i] : i; };
  LD mm = 0;
  for (LD v : R.mass) mm = std::max(mm, v);
  for (auto& kv : h.n) {
    const std::string& k = kv.first;
    for (size_t i = 0; i < kv.second.size(); ++i) {
      int n = N((int)i);
      if (k == "lumped_mass") { cmp(d, kv.second[i], R.mass[n], 1e-12L * R.mass[n] * (1 + q.far), "lumped mass of node " + std::to_string(n)); continue; }
      std::string base = k.substr(0, k.size() - 2);
      int c = k.back() - 'x';
      std::string what = k + " of node " + std::to_string(n) + at;
      if (base == "displacement") cmp(d, kv.second[i], r.u[n][c], q.u, what);
      else if (base == "velocity") cmp(d, kv.second[i], r.v[n][c], first ? 1e-13L * (fabsl(r.v[n][c]) + R.vscale) : q.v, what);
      else if (base == "acceleration") cmp(d, kv.second[i], r.a[n][c], first ? 0 : q.a, what);
      else if (base == "internal_force") cmp(d, kv.second[i], r.f[n][c], first ? 0 : q.f, what);
      else if (base == "contact_force" && m.penalty > 0) cmp(d, kv.second[i], first ? 0 : r.fc[n][c], first ? 0 : q.c, what);
      else if (base == "external_force" || base == "contact_force") cmp(d, kv.second[i], 0, 0, what);
      else if (base == "reference_coordinate") cmp(d, kv.second[i], m.X[n][c], 0, what);
    }
  }
  for (auto& kv : h.e) {
    const std::string& k = kv.first;
    for (size_t i = 0; i < kv.second.size(); ++i) {
      int e = E((int)i);
      std::string what = k + " of element " + std::to_string(e) + at;
      if (k == "volume") { cmp(d, kv.second[i], r.vol[e], q.vol, what); continue; }
      std::string base = k.substr(0, k.size() - 3), comp = k.substr(k.size() - 3);
      int ip = -1;
      if (base.substr(0, 3) == "ipt") { ip = atoi(base.substr(3, 2).c_str()) - 1; base = base.substr(6); }
      int a = comp[1] - 'x', b = comp[2] - 'x';
      LD tol = base == "stress" ? q.s : q.F;
      auto val = [&](int g) { return base == "stress" ? r.sig[e][g][a][b] : r.F[e][g][a][b]; };
      cmp(d, kv.second[i], ip >= 0 ? val(ip) : average(m, e, r.u, val), tol, what);
    }
  }
}
// expected times of the records of a run, from the cadence rule alone
std::vector<double> cadence(const Model& m) {
  std::vector<double> v = {m.t0};
  for (int k = 0; k < m.steps; ++k) if (m.freq && (k % m.freq == 0 || k == m.steps - 1)) v.push_back(m.t0 + (k + 1) * ((m.tf - m.t0) / m.steps));
  return v;
}
void check_times(const Model& m, const Exo& o) {
  auto c = cadence(m);
  VP_REQUIRE(o.times.size() == c.size(), o.times.size() << " records, expected " << c.size() << " (" << m.steps << " steps, frequency " << m.freq << ")");
  for (size_t k = 0; k < c.size(); ++k) VP_REQUIRE(near(o.times[k], c[k], 1e-12, 1e-12 * std::fabs(m.tf - m.t0) + 1e-14 * m.steps * (std::fabs(m.t0) + std::fabs(m.tf))), "record " << k << " is stamped " << o.times[k] << ", expected " << c[k]);
}
void check_mesh(const Model& m, const Exo& o) {
  Exo w = to_exo(m);
  VP_REQUIRE(o.x == w.x && o.y == w.y && o.z == w.z, "coordinates in the output file differ from the mesh");
  std::vector<int> nid = m.nid, eid = m.eid;
  if (nid.empty()) { nid.resize(m.nn()); std::iota(nid.begin(), nid.end(), 1); }
  if (eid.empty()) { eid.resize(m.ne()); std::iota(eid.begin(), eid.end(), 1); }
  VP_REQUIRE(o.nid == nid && o.eid == eid, "node or element ids in the output file differ from the mesh");
  VP_REQUIRE(o.blocks.size() == w.blocks.size(), "number of blocks in the output file");
  for (size_t b = 0; b < w.blocks.size(); ++b) {
    VP_REQUIRE(o.blocks[b].id == w.blocks[b].id && o.blocks[b].conn == w.blocks[b].conn, "block " << w.blocks[b].id << " in the output file differs from the mesh");
    VP_REQUIRE(o.blocks[b].name == "block_" + std::to_string(w.blocks[b].id), "block name " << o.blocks[b].name);
  }
  VP_REQUIRE(o.nsets.size() == w.nsets.size(), "number of node sets in the output file: " << o.nsets.size() << ", mesh has " << w.nsets.size());
  for (auto& t : m.sets) {
    bool found = false;
    for (auto& g : o.nsets) if (g.id == t.id) { found = true; VP_REQUIRE(g.a == t.nodes, "node set " << t.id << " in the output file"); VP_REQUIRE(g.name == t.name, "name of node set " << t.id << ": " << g.name); }
    VP_REQUIRE(found, "node set " << t.id << " is missing from the output file");
  }
}
bool moves(const Ref& R) { LD u = 0; for (auto& r : R.rec) for (auto& x : r.u) u = std::max(u, vnorm(x)); return u > 0; }
void tags(Src& s, const Model& m) {
  s.label("blocks=" + std::to_string(m.bid.size()));
  s.label(m.steps == 1 ? "steps=1" : m.steps < 6 ? "steps<6" : "steps>=6");
  for (auto& b : m.bc) s.label(b.kind == 0 ? "initial_velocity" : b.kind == 1 ? "prescribed_velocity" : "prescribed_displacement");
  for (auto& x : m.mat) s.label(x.neo ? "neohookean" : "elastic");
}
double printed_dt(const std::string& log) {
  size_t p = log.find("maximum stable time step:");
  VP_REQUIRE(p != std::string::npos, "no stable time step is reported");
  return strtod(log.c_str() + p + 25, 0);
}
Hooks run_hooks() {   // what the replaced calls would have done, once per process
  Hooks hk;
  hk.init = [] {
    int argc = 1;
    static char n[] = "NimbleSM";
    static char* av[] = {n, nullptr};
    char** a = av;
    __real_MPI_Init(&argc, &a);
    __real__ZN6Kokkos10initializeERiPPc(argc, a);
  };
  hk.fini = [] { int f = 0; MPI_Initialized(&f); if (f) PMPI_Finalize(); };
  return hk;
}
}  // namespace
