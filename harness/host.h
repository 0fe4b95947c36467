// runs on the host model data: the quasistatic model generator, and an explicit run with the host data in
// the place of the portable one
#pragma once
#include "run.h"
#include "integrators/explicit_time_integrator.h"
#include "nimble_block.h"
#include "nimble_boundary_condition_manager.h"
#include "nimble_data_manager.h"
#include "nimble_kokkos_model_data.h"
#include "nimble_linear_solver.h"
#include "nimble_material_factory.h"
#include "nimble_mesh_utils.h"
#include "nimble_model_data.h"
#include "nimble_parser.h"
namespace {
std::vector<int> iota(int n) { std::vector<int> v(n); std::iota(v.begin(), v.end(), 0); return v; }
// what the host runs build their materials with
std::function<std::shared_ptr<nimble::MaterialFactoryBase>()> host_factory = [] { return std::make_shared<nimble::MaterialFactory>(); };
struct Quasi { double tol = 1e-6; int limit = 200; bool wild = false; double amp = 0; std::vector<int> fixed; };
Model gen_quasi(Src& s, Quasi& q) {
  Opt o;
  o.maxcells = s.chance(1, 4) ? 3 : 2;
  o.bcs = false;
  o.holes = false;
  Model m = gen_model(s, o);
  m.scheme = "quasistatic";
  double T = s.flip() ? 1 : s.logu(1e-6, 1e6);
  m.steps = (int)s.size(1, 6);
  m.t0 = s.flip() ? 0 : s.usym(3) * T;
  m.tf = m.t0 + T;
  m.freq = 1;
  q.wild = s.chance(1, 8);
  q.amp = q.wild ? s.uniform(0.3, 3) : s.logu(1e-6, 0.02);
  double L = (double)m.hmax * 3;
  for (auto& p : m.X) for (LD c : p) L = std::max(L, (double)fabsl(c));
  // one face of every body is held or moved as a whole, so that no rigid motion is left
  std::vector<std::vector<Face>> of;
  std::set<int> all(m.bid.begin(), m.bid.end());
  for (auto& f : exposed(m, all)) { size_t b = m.body[f.n[0]]; if (of.size() <= b) of.resize(b + 1); of[b].push_back(f); }
  std::vector<int> hold, rest;
  for (auto& v : of) if (!v.empty()) { auto& f = s.pick(v); hold.insert(hold.end(), f.n.begin(), f.n.end()); }
  for (int i : s.perm(m.nn())) if (std::find(hold.begin(), hold.end(), i) == hold.end()) rest.push_back(i);
  int ns = 1 + (rest.empty() ? 0 : (int)s.below(4));
  auto ids = gen_ids(s, ns + 4, 100);
  std::set<std::string> names;
  q.fixed.assign(3 * m.nn(), 0);
  bool calm = s.chance(1, 3);           // the held faces do not move
  for (int k = 0; k < ns; ++k) {
    sim::Set t;
    t.id = ids[k];
    t.name = "nodelist_" + std::to_string(t.id);
    if (s.flip()) { t.name = gen_name(s, names, "ns"); }
    if (k == 0) t.nodes = hold;
    else { std::vector<int> p = rest; int n = (int)s.size(1, (long)p.size()); for (int i = 0; i < n; ++i) { std::swap(p[i], p[i + s.below(p.size() - i)]); t.nodes.push_back(p[i]); } }
    m.sets.push_back(t);
    for (int c = 0; c < 3; ++c) {
      if (k && s.chance(1, 2)) continue;
      bool clash = false;
      for (int n : t.nodes) clash = clash || q.fixed[3 * n + c];
      if (clash) continue;
      for (int n : t.nodes) q.fixed[3 * n + c] = 1;
      BC b;
      b.kind = s.chance(1, 3) ? 1 : 2;
      b.set = k; b.coord = c;
      double a = q.amp * (double)m.hmin / (b.kind == 1 ? T : 1);
      if (k == 0 && calm) { b.text = "0.0"; b.f = [](LD, LD, LD, LD) { return (LD)0; }; }
      else if (s.flip()) {
        double g = s.usym(a) / T, z = -g * m.t0;
        b.text = "\"(" + num(g) + ") * t + (" + num(z) + ")\"";
        b.f = [g, z](LD, LD, LD, LD t) { return (LD)g * t + (LD)z; };
      } else gen_value(s, a, L, T, true, b);
      m.bc.push_back(b);
    }
  }
  // a condition written twice, for the same set or for another one with some of its nodes
  if (s.chance(1, 3))
    for (int k = 0, again = 1 + (int)s.below(2); k < again; ++k) {
      BC b = s.pick(m.bc);
      if (s.chance(2, 3)) {
        sim::Set t;
        t.id = ids[ns + k];
        t.name = "nodelist_" + std::to_string(t.id);
        for (int n : m.sets[b.set].nodes) if (s.flip()) t.nodes.push_back(n);
        b.set = (int)m.sets.size();
        m.sets.push_back(t);
      }
      m.bc.insert(m.bc.begin() + s.below(m.bc.size() + 1), b);
      s.label("condition repeated");
    }
  // initial velocities have no part in a quasistatic run, and hold nothing
  if (s.chance(1, 4))
    for (int k = 0, n = 1 + (int)s.below(2); k < n; ++k) {
      BC b;
      b.kind = 0;
      b.coord = (int)s.below(3);
      b.set = (int)s.below(m.sets.size());
      if (!rest.empty() && s.chance(2, 3)) {
        sim::Set t;
        t.id = ids[ns + 2 + k];
        t.name = "nodelist_" + std::to_string(t.id);
        for (int i : rest) if (s.flip()) t.nodes.push_back(i);
        b.set = (int)m.sets.size();
        m.sets.push_back(t);
      }
      gen_value(s, q.amp * (double)m.hmin / T, L, T, true, b);
      m.bc.insert(m.bc.begin() + s.below(m.bc.size() + 1), b);
      s.label("initial velocity");
    }
  if (s.chance(2, 3)) { q.tol = s.logu(1e-9, 1e-2); m.lines.push_back("nonlinear solver relative tolerance: " + num(q.tol)); }
  if (s.chance(1, 3)) { q.limit = (int)s.size(1, 12); m.lines.push_back("nonlinear solver maximum iterations: " + std::to_string(q.limit)); }
  return m;
}
// the data manager of a run, with the host model data in the place of the portable one
struct HostDM : nimble::DataManager {
  HostDM(const nimble::Parser& p, const nimble::GenesisMesh& mesh, const std::string& out) : nimble::DataManager(p, mesh) {
    auto md = std::make_shared<nimble::ModelData>();
    int n = (int)mesh.GetNumNodes();
    md->SetDimension(mesh.GetDim());
    field_ids_.lumped_mass = md->AllocateNodeData(nimble::SCALAR, "lumped_mass", n);
    field_ids_.reference_coordinates = md->AllocateNodeData(nimble::VECTOR, "reference_coordinate", n);
    field_ids_.displacement = md->AllocateNodeData(nimble::VECTOR, "displacement", n);
    field_ids_.velocity = md->AllocateNodeData(nimble::VECTOR, "velocity", n);
    field_ids_.acceleration = md->AllocateNodeData(nimble::VECTOR, "acceleration", n);
    field_ids_.internal_force = md->AllocateNodeData(nimble::VECTOR, "internal_force", n);
    field_ids_.external_force = md->AllocateNodeData(nimble::VECTOR, "external_force", n);
    field_ids_.contact_force = md->AllocateNodeData(nimble::VECTOR, "contact_force", n);
    md->SetReferenceCoordinates(mesh);
    model_data_ = md;
    auto f = host_factory();
    model_data_->InitializeBlocks(*this, f);
    InitializeOutput(out);
  }
};
struct HostRun : nimble::IntegratorBase {
  HostDM dm;
  HostRun(nimble::NimbleApplication& a, nimble::GenesisMesh& m) : nimble::IntegratorBase(a, m, dm), dm(a.GetParser(), m, "h.out.e") {}
  int Integrate() override {
    nimble::ExplicitTimeIntegrator i(App(), Mesh(), dm);
    return i.Integrate();
  }
};
struct HostApp : App {
  std::unique_ptr<nimble::IntegratorBase> CreateIntegrator(nimble::DataManager&, nimble::GenesisMesh& mesh) override { return std::unique_ptr<nimble::IntegratorBase>(new HostRun(*this, mesh)); }
};
}  // namespace
