#include <dirent.h>
// whole runs of the application: C03 C07 C12 C13 C14 C15 C17 C22 C27
#include "run.h"
namespace {
// ---------------------------------------------------------------- C13
void c13_history(Src& s) {
  Model m = gen_model(s, Opt());
  m.fields = all_fields(s, true);
  Ref R = reference(m);
  if (R.bad) throw Discard();
  s.note() << describe(m);
  std::string text = deck(s, m);
  s.note() << "\n" << text;
  Run r = serial(s, m, text, s.chance(1, 4) ? std::vector<std::string>{"--use_tpetra"} : std::vector<std::string>());
  check_times(m, r.out);
  auto h = history(r.out);
  Dev d;
  for (size_t k = 0; k < h.size(); ++k) compare_record(d, m, R, R.rec[k], h[k], k == 0);
  VP_REQUIRE(r.out.nvars.size() == 16 && r.out.evars.size() == 16, "number of output variables");
  s.maxi("deviation/tolerance", (double)d.worst);
  LD um = 0;
  for (auto& x : R.rec) for (auto& v : x.u) um = std::max(um, vnorm(v));
  if (um > 0) s.maxi("max displacement tolerance, relative", (double)(R.tol.u / um));
  tags(s, m);
  s.nontrivial(moves(R) && m.steps > 1);
}
void c13_output(Src& s) {
  Model m = gen_model(s, Opt());
  m.fields = "displacement velocity acceleration";
  s.note() << describe(m);
  Run a = serial(s, m, deck(s, m));
  Model n = m;
  n.freq = (int)s.range(1, m.steps + 2);
  std::vector<std::string> more = {"stress", "deformation_gradient", "volume", "lumped_mass", "internal_force", "ipt03_stress", "ipt08_deformation_gradient"};
  for (auto& f : more) if (s.flip()) n.fields += " " + f;
  s.note() << " | second run: frequency " << n.freq << ", fields " << n.fields;
  Run b = serial(s, n, deck(s, n));
  auto A = history(a.out), B = history(b.out);
  int common = 0;
  // the records the two runs share
  auto held = [&](int c, int i) { for (auto& q : m.bc) if (q.kind && q.coord == c) for (int z : m.sets[q.set].nodes) if (z == i) return true; return false; };
  for (auto& x : A) for (auto& y : B)
    if (x.t == y.t) {
      ++common;
      for (auto& kv : x.n)
        for (size_t i = 0; i < kv.second.size(); ++i) {
          double g = y.n[kv.first][i];
          if (kv.second[i] == g) continue;
          VP_REQUIRE(near(kv.second[i], g, 1e-12, 0) , kv.first << " of node " << i << " at time " << x.t << " is " << kv.second[i] << " in one run and " << g << " in another that differs in what is written only");
        }
    }
  (void)held;
  VP_REQUIRE(common >= 2, "no common record");
  tags(s, m);
  s.nontrivial(common > 2 && n.freq != m.freq);
}
// ---------------------------------------------------------------- C12
void c12_fields(Src& s) {
  Opt o;
  o.maxsteps = 6;
  Model m = gen_model(s, o);
  std::vector<std::string> pool = nodal();
  for (auto& f : {"lumped_mass", "volume", "stress", "deformation_gradient"}) pool.push_back(f);
  std::vector<std::string> ask, ask2;
  std::vector<std::string> junk = {"pressure", "displacement_x", "Velocity", "stress_xx", "ipt03_pressure", "veloc", "ipt00_stress", "ipt09_stress", "ipt13_stress", "ipt10_deformation_gradient", "ipt81_deformation_gradient", "ipt03_", "ipt", "ipt5", "ipt04", "stress_"};
  for (int pass = 0; pass < 2; ++pass) {
    std::set<std::string> seen;
    auto& v = pass ? ask2 : ask;
    int k = (int)s.range(1, 6);
    for (int i = 0; i < k; ++i) {
      std::string f = s.chance(1, 3) ? "ipt0" + std::to_string(s.range(1, 8)) + (s.flip() ? "_stress" : "_deformation_gradient") : s.chance(1, 12) ? s.pick(junk) : s.pick(pool);
      if (seen.insert(f).second) v.push_back(f);
    }
  }
  // the second run asks for some of the first one's fields among others, in another order
  std::vector<std::string> both;
  for (auto& f : ask) if (s.flip()) both.push_back(f);
  for (auto& f : ask2) if (std::find(both.begin(), both.end(), f) == both.end()) both.push_back(f);
  auto join = [&](const std::vector<std::string>& v) { std::string r; for (int i : s.perm((int)v.size())) r += (r.empty() ? "" : s.chance(1, 10) ? "   " : " ") + v[i]; return r; };
  Ref R = reference(m);
  if (R.bad) throw Discard();
  auto names = [&](const std::vector<std::string>& v, std::set<std::string>& n, std::set<std::string>& e) {
    for (auto& f : v) {
      if (std::find(nodal().begin(), nodal().end(), f) != nodal().end()) for (auto c : XS) n.insert(f + c);
      else if (f == "lumped_mass") n.insert(f);
      else if (f == "volume") e.insert(f);
      else {
        bool pt = f.size() > 6 && f.substr(0, 4) == "ipt0" && f[4] >= '1' && f[4] <= '8' && f[5] == '_';
        std::string b = pt ? f.substr(6) : f;
        if (b == "stress") for (auto c : S6) e.insert(f + c);
        if (b == "deformation_gradient") for (auto c : F9) e.insert(f + c);
      }
    }
  };
  Dev d;
  std::vector<Hist> H[2];
  for (int pass = 0; pass < 2; ++pass) {
    auto& v = pass ? both : ask;
    m.fields = join(v);
    s.note() << (pass ? "\nthen " : "") << describe(m);
    std::string text = deck(s, m);
    Run r = serial(s, m, text);
    std::set<std::string> n, e;
    names(v, n, e);
    VP_REQUIRE(r.out.nvars.size() == n.size() && std::set<std::string>(r.out.nvars.begin(), r.out.nvars.end()) == n, "nodal variables in the file are not those requested ('" << m.fields << "'): " << r.out.nvars.size() << " for " << n.size());
    VP_REQUIRE(r.out.evars.size() == e.size() && std::set<std::string>(r.out.evars.begin(), r.out.evars.end()) == e, "element variables in the file are not those requested ('" << m.fields << "'): " << r.out.evars.size() << " for " << e.size());
    check_mesh(m, r.out);
    check_times(m, r.out);
    H[pass] = history(r.out);
    for (size_t k = 0; k < H[pass].size(); ++k) compare_record(d, m, R, R.rec[k], H[pass][k], k == 0);
  }
  for (size_t k = 0; k < H[0].size(); ++k)
    for (int el = 0; el < 2; ++el)
      for (auto& kv : el ? H[0][k].e : H[0][k].n) {
        auto& o2 = el ? H[1][k].e : H[1][k].n;
        auto it = o2.find(kv.first);
        if (it != o2.end()) VP_REQUIRE(it->second == kv.second, kv.first << " of record " << k << " depends on what else is requested");
      }
  s.maxi("deviation/tolerance", (double)d.worst);
  tags(s, m);
  for (auto& f : ask) s.label(f.substr(0, 3) == "ipt" ? "ipt" : f);
  s.nontrivial(moves(R) && ask.size() > 1);
}
// ---------------------------------------------------------------- C03
void c03_run(Src& s) {
  Opt o;
  o.maxsteps = 8;
  Model m = gen_model(s, o);
  if (m.bc.empty()) throw Discard();
  m.fields = "velocity displacement";
  m.freq = 1;
  std::string text = deck(s, m);
  s.note() << describe(m) << "\n" << text;
  Run r = serial(s, m, text);
  auto h = history(r.out);
  check_times(m, r.out);
  // what each condition fixes, from the deck alone
  LD dt = (m.tf - m.t0) / m.steps;
  std::map<std::pair<int, int>, const BC*> vel, dis, ini;
  for (auto& b : m.bc) for (int n : m.sets[b.set].nodes) (b.kind == 0 ? ini : b.kind == 1 ? vel : dis)[{n, b.coord}] = &b;
  for (int n = 0; n < m.nn(); ++n)
    for (int c = 0; c < 3; ++c) {
      auto val = [&](const BC* b, LD t) { return b->f(m.X[n][0], m.X[n][1], m.X[n][2], t); };
      auto at = [&](size_t k, const char* f) { return h[k].n[std::string(f) + XS[c]][n]; };
      auto v = vel.find({n, c}), u = dis.find({n, c}), i = ini.find({n, c});
      LD v0 = v != vel.end() ? val(v->second, m.t0) : i != ini.end() ? val(i->second, 0) : 0;
      VP_REQUIRE(at(0, "displacement") == 0, "displacement before the first step");
      double g = at(0, "velocity");
      if (v0 == 0 && v == vel.end() && i == ini.end()) VP_REQUIRE(g == 0, "no condition acts on component " << c << " of node " << n << ", yet its initial velocity is " << g);
      else VP_REQUIRE(near(g, (double)v0, 1e-12, 1e-12 * (double)m.cmax * o.vscale), "initial velocity of component " << c << " of node " << n << " is " << g << ", expected " << (double)v0);
      LD sum = 0, mag = 0;
      for (size_t k = 1; k < h.size(); ++k) {
        LD t = h[k].t, tol = 1e-11L * m.cmax * o.vscale;
        if (v != vel.end()) {
          LD w = val(v->second, t);
          sum += w * dt; mag += fabsl(w) * dt;
          VP_REQUIRE(fabsl(at(k, "velocity") - w) <= tol + 1e-12L * fabsl(w), "prescribed velocity of component " << c << " of node " << n << " at time " << (double)t << " is " << at(k, "velocity") << ", expected " << (double)w);
          VP_REQUIRE(fabsl(at(k, "displacement") - sum) <= 1e-11L * (mag + m.cmax * o.vscale * dt), "displacement of component " << c << " of node " << n << " with prescribed velocity is " << at(k, "displacement") << ", expected " << (double)sum);
        }
        if (u != dis.end()) {
          LD w = val(u->second, t);
          VP_REQUIRE(fabsl(at(k, "displacement") - w) <= 1e-11L * m.cmax * o.vscale * dt * m.steps, "prescribed displacement of component " << c << " of node " << n << " at time " << (double)t << " is " << at(k, "displacement") << ", expected " << (double)w);
        }
      }
    }
  tags(s, m);
  s.nontrivial(!vel.empty() || !dis.empty());
}
// ---------------------------------------------------------------- C07
void c07_run(Src& s) {
  Opt o;
  o.maxsteps = 1; o.maxcells = 4; o.bcs = false; o.maxblocks = 5;
  Model m = gen_model(s, o);
  // the time step asked for may be on either side of the stable one
  double f = s.pick({0.5, 0.9, 1.1, 3.0});
  Ref R = reference(m);
  m.tf = m.t0 + f * (double)R.dtcrit;
  m.freq = 1;
  m.fields = "lumped_mass volume";
  s.note() << describe(m);
  Run r = serial(s, m, deck(s, m));
  double dt = printed_dt(r.log);
  VP_REQUIRE(near(dt, (double)R.dtcrit, 1e-5, 0), "reported stable time step " << dt << ", expected " << (double)R.dtcrit);
  bool warned = r.log.find("exceeds the computed maximum stable time step") != std::string::npos;
  VP_REQUIRE(warned == (f > 1), "time step of " << f << " times the stable one: " << (warned ? "warned" : "not warned"));
  auto h = history(r.out);
  LD tot = 0, want = 0;
  for (auto& x : h) {
    tot = 0; want = 0;
    for (int n = 0; n < m.nn(); ++n) {
      double g = x.n["lumped_mass"][n];
      VP_REQUIRE(g > 0, "lumped mass of node " << n << " is " << g);
      VP_REQUIRE(near(g, (double)R.mass[n], 1e-11, 0), "lumped mass of node " << n << " is " << g << ", expected " << (double)R.mass[n]);
      tot += g;
    }
    for (int e = 0; e < m.ne(); ++e) want += m.mat[m.eb[e]].rho * hexvolume(m.hex(e));
    VP_REQUIRE(fabsl(tot - want) <= 1e-11L * want, "total mass " << (double)tot << ", expected " << (double)want);
  }
  tags(s, m);
  s.nontrivial(m.ne() > 1);
}
// ---------------------------------------------------------------- C14
struct NoBc : Opt { NoBc() { prescribed = false; } };
// every node gets an initial velocity, from a few expressions
Model gen_free(Src& s, Opt o, bool uniform = false) {
  o.bcs = false;
  Model m = gen_model(s, o);
  Set t;
  t.id = (int)s.range(1, 50); t.name = "nodelist_" + std::to_string(t.id);
  for (int i : s.perm(m.nn())) t.nodes.push_back(i);
  m.sets.push_back(t);
  double L = (double)m.hmax * 3, v = o.vscale * (0.1 + s.unit()) * (double)m.cmax;
  for (auto& p : m.X) for (LD c : p) L = std::max(L, (double)fabsl(c));
  for (int c = 0; c < 3; ++c) {
    BC b;
    b.kind = 0; b.set = 0; b.coord = c;
    if (uniform) { double q = s.usym(v); b.text = num(q); b.f = [q](LD, LD, LD, LD) { return (LD)q; }; }
    else gen_value(s, v, L, 1, false, b);
    m.bc.push_back(b);
  }
  return m;
}
void c14_conserve(Src& s) {
  NoBc o;
  o.only_neo = s.chance(3, 4);
  o.maxsteps = 40;
  Model m = gen_free(s, o);
  m.fields = "velocity displacement lumped_mass deformation_gradient internal_force";
  bool all_neo = true;
  for (auto& x : m.mat) all_neo = all_neo && x.neo;
  if (all_neo) { m.fields = "velocity displacement lumped_mass internal_force"; for (int q = 1; q <= 8; ++q) m.fields += " ipt0" + std::to_string(q) + "_deformation_gradient"; }
  m.freq = 1;
  std::string text = deck(s, m);
  s.note() << describe(m);
  Run r = serial(s, m, text);
  auto h = history(r.out);
  LD Km = 0;
  for (auto& x : m.mat) Km = std::max(Km, x.K + 4 * x.G / 3);
  LD dt = (m.tf - m.t0) / m.steps, E0 = 0;
  V3 P0{}, L0{};
  LD Pm = 0, Lm = 0, fs = 0, XL = 0;
  for (auto& p : m.X) XL = std::max(XL, vnorm(p));
  bool moved = false;
  for (size_t k = 0; k < h.size(); ++k) {
    auto& mass = h[k].n["lumped_mass"];
    V3 P{0, 0, 0}, L{0, 0, 0}, Fs{0, 0, 0};
    LD KE = 0, PE = 0, fa = 0;
    for (int n = 0; n < m.nn(); ++n) {
      V3 v, x, f;
      for (int c = 0; c < 3; ++c) {
        v[c] = h[k].n[std::string("velocity") + XS[c]][n];
        x[c] = m.X[n][c] + h[k].n[std::string("displacement") + XS[c]][n];
        f[c] = h[k].n[std::string("internal_force") + XS[c]][n];
      }
      P = vadd(P, v, mass[n]);
      L = vadd(L, cross(x, v), mass[n]);
      KE += 0.5L * mass[n] * dot(v, v);
      Fs = vadd(Fs, f);
      fa += vnorm(f);
      if (k == 0) { Pm += mass[n] * vnorm(v); Lm += mass[n] * vnorm(v) * (vnorm(x) + m.hmax); }
    }
    fs = std::max(fs, fa);
    // rounding of the forces: of an element's stress, as far as it does not cancel in the sum
    LD feps = 1e-13L * fs;
    LD noise = 1e-12L * Pm + feps * dt * (LD)k;
    moved = moved || KE > 0;
    if (k == 0) { P0 = P; L0 = L; }
    VP_REQUIRE(vnorm(Fs) <= 1e-13L * fs + 1e-16L * Km * m.hmax * m.hmax * m.ne() * 8, "internal forces of a free body sum to " << (double)vnorm(Fs) << " (sum of magnitudes " << (double)fa << ")");
    VP_REQUIRE(vnorm(vsub(P, P0)) <= noise + 1e-16L * Km * m.hmax * m.hmax * m.ne() * 8 * dt * (LD)k, "momentum changed from (" << (double)P0[0] << " " << (double)P0[1] << " " << (double)P0[2] << ") to (" << (double)P[0] << " " << (double)P[1] << " " << (double)P[2] << ") by step " << k << ", allowed " << (double)noise);
    LD ln = (noise + 4e-16L * Km * m.hmax * m.hmax * m.ne() * 8 * (1 + XL / m.hmin) * dt * (LD)k) * (XL + m.hmax) + 1e-12L * Lm;
    VP_REQUIRE(vnorm(vsub(L, L0)) <= ln, "angular momentum changed from (" << (double)L0[0] << " " << (double)L0[1] << " " << (double)L0[2] << ") by " << (double)vnorm(vsub(L, L0)) << " at step " << k << ", allowed " << (double)ln);
    if (Lm > 0) s.maxi("angular momentum, relative change allowed", (double)(ln / Lm));
    if (all_neo) {
      for (int e = 0; e < m.ne(); ++e)
        for (int q = 0; q < 8; ++q) {
          T3 F;
          for (int i = 0; i < 9; ++i) F[F9[i][1] - 'x'][F9[i][2] - 'x'] = h[k].e["ipt0" + std::to_string(q + 1) + "_deformation_gradient" + F9[i]][e];
          LD J = det(F);
          if (!(J > 0.4L && J < 2.5L)) throw Discard();
          PE += energy(m.mat[m.eb[e]], F) * det(jac(m.hex(e), gauss(q)));
        }
      if (k == 0) E0 = KE;
      LD z = dt * m.cmax / m.hmin, vol = 0;
      for (int e = 0; e < m.ne(); ++e) vol += hexvolume(m.hex(e));
      LD en = z * z * E0 + 1e-13L * Km * vol * (1 + XL / m.hmin);
      VP_REQUIRE(fabsl(KE + PE - E0) <= en, "total energy went from " << (double)E0 << " to " << (double)(KE + PE) << " at step " << k << ", allowed " << (double)en);
      s.maxi("energy: change/allowed", (double)(fabsl(KE + PE - E0) / en));
      s.maxi("energy: allowed relative change", (double)(z * z));
      s.label("energy");
    }
  }
  tags(s, m);
  s.nontrivial(moved && m.steps > 2);
}
void c14_translate(Src& s) {
  NoBc o;
  Model m = gen_free(s, o, true);
  m.fields = "velocity displacement internal_force stress acceleration volume";
  s.note() << describe(m);
  Run r = serial(s, m, deck(s, m));
  auto h = history(r.out);
  V3 v;
  for (int c = 0; c < 3; ++c) v[c] = m.bc[c].f(0, 0, 0, 0);
  Ref R = reference(m);
  for (auto& x : h)
    for (int n = 0; n < m.nn(); ++n)
      for (int c = 0; c < 3; ++c) {
        LD w = v[c] * (x.t - m.t0);
        VP_REQUIRE(fabsl(x.n[std::string("displacement") + XS[c]][n] - w) <= R.tol.u, "displacement " << c << " of node " << n << " is " << x.n[std::string("displacement") + XS[c]][n] << ", expected " << (double)w);
        VP_REQUIRE(fabsl(x.n[std::string("velocity") + XS[c]][n] - v[c]) <= R.tol.v, "velocity " << c << " of node " << n << " changed to " << x.n[std::string("velocity") + XS[c]][n] << " from " << (double)v[c]);
        VP_REQUIRE(fabsl(x.n[std::string("internal_force") + XS[c]][n]) <= R.tol.f, "internal force in a uniform translation: " << x.n[std::string("internal_force") + XS[c]][n] << " allowed " << (double)R.tol.f);
      }
  for (auto& x : h)
    for (auto& kv : x.e)
      if (kv.first != "volume") for (double g : kv.second) VP_REQUIRE(fabsl(g) <= R.tol.s, kv.first << " in a uniform translation: " << g << ", allowed " << (double)R.tol.s);
  tags(s, m);
  s.nontrivial(vnorm(v) > 0 && m.steps > 1);
}
// the part of a model made of some elements (and the nodes they use)
const char* HF = "displacement velocity acceleration internal_force lumped_mass stress deformation_gradient volume";
void c14_bodies(Src& s) {
  Opt o;
  o.minbodies = 2; o.maxbodies = 3; o.maxsteps = 15;
  Model m = gen_model(s, o);
  m.fields = HF;
  s.note() << describe(m);
  Run a = serial(s, m, deck(s, m));
  int b = m.body[m.el[s.below(m.ne())][0]];
  std::vector<int> els, nodes, elems;
  for (int e = 0; e < m.ne(); ++e) if (m.body[m.el[e][0]] == b) els.push_back(e);
  if (els.size() == m.el.size()) throw Discard();
  Model p = part(m, els, nodes, elems, false);
  Run c = serial(s, p, deck(s, p));
  auto A = history(a.out), C = history(c.out);
  VP_REQUIRE(A.size() == C.size(), "number of records");
  bool moved = false;
  Tol q;       // rounding of the order of sums, should that differ; computed when it is first needed
  bool have = false;
  auto same = [&](double x, double y, const std::string& name) {
    if (x == y || near(x, y, 1e-13, 0)) return true;
    if (!have) { Ref R = reference(m); if (R.bad) throw Discard(); q = R.tol; have = true; }
    auto has = [&](const char* w) { return name.find(w) != std::string::npos; };
    return fabsl((LD)x - y) <= (has("displacement") ? q.u : has("velocity") ? q.v : has("acceleration") ? q.a : has("force") ? q.f : has("stress") ? q.s : has("deformation") ? q.F : has("volume") ? q.vol : 0);
  };
  for (size_t k = 0; k < A.size(); ++k) {
    for (auto& kv : C[k].n)
      for (size_t i = 0; i < nodes.size(); ++i) {
        double x = A[k].n[kv.first][nodes[i]];
        moved = moved || (k && x != 0);
        VP_REQUIRE(same(kv.second[i], x, kv.first), kv.first << " of node " << nodes[i] << " at time " << A[k].t << " is " << x << " with another body in the model and " << kv.second[i] << " without");
      }
    for (auto& kv : C[k].e)
      for (size_t i = 0; i < elems.size(); ++i) VP_REQUIRE(same(kv.second[i], A[k].e[kv.first][elems[i]], kv.first), kv.first << " of element " << elems[i] << " depends on another body: " << A[k].e[kv.first][elems[i]] << " and " << kv.second[i]);
  }
  tags(s, m);
  s.nontrivial(moved);
}
// ---------------------------------------------------------------- C15
// a relation: transformed model n of m, with node and element maps and factors
void relation(Src& s, const Model& m, const Model& n, const std::vector<int>& nm, const std::vector<int>& em, std::array<int, 3> axis, LD uL, LD uT, LD uM, const std::string& what) {
  Ref R = reference(m);
  if (R.bad) throw Discard();
  Run a = serial(s, m, deck(s, m));
  Run b = serial(s, n, deck(s, n));
  auto A = history(a.out), B = history(b.out);
  VP_REQUIRE(A.size() == B.size(), what << ": number of records " << A.size() << " " << B.size());
  const Tol& q = R.tol;
  LD vol = q.vol, uF = uM * uL / (uT * uT), uS = uF / (uL * uL);
  LD w = 0;
  auto chk = [&](double x, double y, LD scale, LD tol, const std::string& name, int i, double t) {
    LD d = fabsl((LD)y / scale - x);
    VP_REQUIRE(d <= tol, what << ": " << name << " " << i << " at time " << t << " is " << x << " in one run and " << (double)((LD)y / scale) << " (after undoing the change) in the other, allowed difference " << (double)tol);
    if (tol > 0) w = std::max(w, d / tol);
  };
  for (size_t k = 0; k < A.size(); ++k) {
    VP_REQUIRE(near(A[k].t * (double)uT, B[k].t, 1e-12, 1e-12 * std::fabs((m.tf - m.t0) * (double)uT) + 1e-13 * std::fabs(m.t0 * (double)uT)), what << ": record times");
    for (int i = 0; i < m.nn(); ++i) {
      int j = nm[i];
      chk(A[k].n["lumped_mass"][i], B[k].n["lumped_mass"][j], uM, 1e-12L * R.mass[i] * (1 + q.far), "lumped mass", i, A[k].t);
      for (int c = 0; c < 3; ++c) {
        const char *x = XS[c], *y = XS[axis[c]];
        auto get = [&](const char* f, int rec, int node, const char* cc) { return (rec ? B : A)[k].n[std::string(f) + cc][node]; };
        chk(get("displacement", 0, i, x), get("displacement", 1, j, y), uL, 2 * q.u, "displacement", i, A[k].t);
        chk(get("velocity", 0, i, x), get("velocity", 1, j, y), uL / uT, k ? 2 * q.v : 1e-12L * R.vscale, "velocity", i, A[k].t);
        chk(get("acceleration", 0, i, x), get("acceleration", 1, j, y), uL / (uT * uT), 2 * q.a, "acceleration", i, A[k].t);
        chk(get("internal_force", 0, i, x), get("internal_force", 1, j, y), uF, 2 * q.f, "internal force", i, A[k].t);
      }
    }
    for (int i = 0; i < m.ne(); ++i) {
      int j = em[i];
      chk(A[k].e["volume"][i], B[k].e["volume"][j], uL * uL * uL, 2 * vol, "volume", i, A[k].t);
      for (int a1 = 0; a1 < 3; ++a1)
        for (int b1 = 0; b1 < 3; ++b1) {
          auto nm2 = [](int p, int r) { return std::string("_") + char('x' + p) + char('x' + r); };
          chk(A[k].e["deformation_gradient" + nm2(a1, b1)][i], B[k].e["deformation_gradient" + nm2(axis[a1], axis[b1])][j], 1, 2 * q.F, "deformation gradient", i, A[k].t);
          auto sy = [&](int p, int r) { std::string t = nm2(p, r); return idx(a.out.evars, "stress" + t) >= 0 ? t : nm2(r, p); };
          chk(A[k].e["stress" + sy(a1, b1)][i], B[k].e["stress" + sy(axis[a1], axis[b1])][j], uS, 2 * q.s, "stress", i, A[k].t);
        }
    }
  }
  s.maxi("deviation/tolerance", (double)w);
  tags(s, m);
  s.nontrivial(moves(R) && m.steps > 1);
}
std::vector<int> iota(int n) { std::vector<int> v(n); std::iota(v.begin(), v.end(), 0); return v; }
// reorders the elements so that they are stored block by block; em: old -> new
void regroup(Model& n, std::vector<int>& em, const std::vector<int>& order) {
  std::vector<std::array<int, 8>> el; std::vector<int> eb, eid, inv(n.ne());
  for (size_t b = 0; b < n.bid.size(); ++b)
    for (int e : order)
      if (n.eb[e] == (int)b) { inv[e] = (int)el.size(); el.push_back(n.el[e]); eb.push_back((int)b); if (!n.eid.empty()) eid.push_back(n.eid[e]); }
  n.el = el; n.eb = eb; n.eid = eid;
  for (int& x : em) x = inv[x];
}
void renumber_nodes(Src& s, Model& n, std::vector<int>& nm) {
  auto p = s.perm(n.nn());   // old -> new
  auto X = n.X; auto body = n.body; auto nid = n.nid;
  for (int i = 0; i < n.nn(); ++i) { n.X[p[i]] = X[i]; n.body[p[i]] = body[i]; if (!nid.empty()) n.nid[p[i]] = nid[i]; }
  for (auto& e : n.el) for (int& k : e) k = p[k];
  for (auto& t : n.sets) for (int& k : t.nodes) k = p[k];
  for (int& k : nm) k = p[k];
}
void c15_number(Src& s) {
  Model m = gen_model(s, Opt());
  m.fields = HF;
  Model n = m;
  auto nm = iota(m.nn()), em = iota(m.ne());
  std::string w;
  if (s.flip()) { renumber_nodes(s, n, nm); w += "nodes reordered; "; }
  if (s.flip()) { regroup(n, em, s.perm(n.ne())); w += "elements reordered; "; }
  if (s.flip()) { n.nid = gen_ids(s, n.nn(), 100000); n.eid = gen_ids(s, n.ne(), 100000); n.aux_ids = s.flip(); w += "global ids changed; "; }
  if (s.flip()) {
    auto ids = gen_ids(s, (int)n.bid.size(), 90);
    auto p = s.perm((int)n.bid.size());      // listing order of the blocks
    Model o = n;
    for (size_t b = 0; b < o.bid.size(); ++b) { n.bid[p[b]] = ids[b]; n.mat[p[b]] = o.mat[b]; }
    for (int& b : n.eb) b = p[b];
    regroup(n, em, iota(n.ne()));
    w += "block ids and order changed; ";
  }
  if (s.flip()) {
    auto ids = gen_ids(s, (int)n.sets.size(), 90);
    for (size_t k = 0; k < n.sets.size(); ++k) { bool dflt = n.sets[k].name == "nodelist_" + std::to_string(n.sets[k].id); n.sets[k].id = ids[k]; if (dflt || s.flip()) n.sets[k].name = "nodelist_" + std::to_string(ids[k]); auto p = s.perm((int)n.sets[k].nodes.size()); auto v = n.sets[k].nodes; for (size_t i = 0; i < v.size(); ++i) n.sets[k].nodes[i] = v[p[i]]; }
    auto p = s.perm((int)n.sets.size());
    auto o = n.sets;
    for (size_t k = 0; k < o.size(); ++k) n.sets[p[k]] = o[k];
    for (auto& b : n.bc) b.set = p[b.set];
    w += "node set ids and order changed; ";
  }
  if (s.flip()) {
    for (auto& e : n.el) { auto q = s.pick(hexperms()); std::array<int, 8> z; for (int k = 0; k < 8; ++k) z[k] = e[q[k]]; e = z; }
    w += "element node order rotated; ";
  }
  if (s.flip()) {   // split a block
    int b = (int)s.below(n.bid.size()), nb = (int)n.bid.size();
    int id = 1;
    while (std::count(n.bid.begin(), n.bid.end(), id)) ++id;
    bool any = false;
    for (int e = 0; e < n.ne(); ++e) if (n.eb[e] == b && s.flip() && std::count(n.eb.begin(), n.eb.end(), b) > 1) { n.eb[e] = nb; any = true; }
    if (any) { n.bid.push_back(id); n.mat.push_back(n.mat[b]); regroup(n, em, iota(n.ne())); w += "block split; "; }
  }
  s.note() << describe(m) << "; " << w;
  if (w.empty()) w = "repeated; ";
  relation(s, m, n, nm, em, {0, 1, 2}, 1, 1, 1, w);
}
void c15_place(Src& s) {
  Opt o;
  o.spatial = false;
  Model m = gen_model(s, o);
  m.fields = HF;
  Model n = m;
  auto nm = iota(m.nn()), em = iota(m.ne());
  std::array<int, 3> ax = {0, 1, 2};
  std::string w;
  LD uL = 1, uT = 1, uM = 1;
  if (s.flip()) {
    auto p = s.perm(3);
    for (int c = 0; c < 3; ++c) ax[c] = p[c];
    bool odd = (p[0] > p[1]) ^ (p[0] > p[2]) ^ (p[1] > p[2]);
    for (int i = 0; i < n.nn(); ++i) for (int c = 0; c < 3; ++c) n.X[i][ax[c]] = m.X[i][c];
    for (auto& b : n.bc) b.coord = ax[b.coord];
    if (odd) { static const int mir[8] = {0, 3, 2, 1, 4, 7, 6, 5}; for (auto& e : n.el) { auto z = e; for (int k = 0; k < 8; ++k) e[k] = z[mir[k]]; } }
    w += odd ? "axes exchanged; " : "axes rotated; ";
  }
  if (s.flip()) {
    V3 t = {s.usym(20) * (double)m.hmax, s.usym(20) * (double)m.hmax, s.usym(20) * (double)m.hmax};
    for (auto& x : n.X) for (int c = 0; c < 3; ++c) x[c] = (double)(x[c] + (double)t[c]);
    w += "moved; ";
  }
  if (s.flip()) {
    int r = s.chance(1, 3) ? 60 : 12;
    uL = ldexpl(1, (int)s.range(-r, r)); uT = ldexpl(1, (int)s.range(-r, r)); uM = ldexpl(1, (int)s.range(-r, r));
    for (auto& x : n.X) for (LD& c : x) c *= uL;
    for (auto& x : n.mat) { x.K *= uM / (uL * uT * uT); x.G *= uM / (uL * uT * uT); x.rho *= uM / (uL * uL * uL); }
    n.t0 = m.t0 * (double)uT; n.tf = m.tf * (double)uT;
    for (auto& b : n.bc) {
      double f = (double)(b.kind == 2 ? uL : uL / uT);
      Fn g = b.f;
      LD c = g(0, 0, 0, 0), d = g(0, 0, 0, m.tf), e = g(0, 0, 0, 0.37L * m.tf);
      if (c == d && c == e) { double v = (double)c * f; b.text = num(v); }
      else {   // in terms of the old time
        std::string q = b.text.substr(1, b.text.size() - 2), r;
        for (size_t i = 0; i < q.size(); ++i) r += q[i] == 't' && (i == 0 || !isalpha(q[i - 1])) && (i + 1 >= q.size() || !isalpha(q[i + 1])) ? "(t*" + num(1 / (double)uT) + ")" : std::string(1, q[i]);
        b.text = "\"(" + r + ")*" + num(f) + "\"";
        if (q.find('?') != std::string::npos) throw Discard();
      }
      b.f = [g, f, uT, uL](LD x, LD y, LD z, LD t) { return g(x / uL, y / uL, z / uL, t / uT) * f; };
    }
    w += "units changed; ";
  }
  s.note() << describe(m) << "; " << w;
  finish(n);
  // rounding of the moved coordinates is part of what is compared
  Model f = m;
  Ref R = reference(n);
  if (R.bad) throw Discard();
  LD big = 0, was = 0;
  for (auto& x : n.X) for (LD c : x) big = std::max(big, fabsl(c) / uL);
  for (auto& x : m.X) for (LD c : x) was = std::max(was, fabsl(c));
  (void)f;
  if (big > 1e3L * m.hmin * (m.hmin / m.hmax)) throw Discard();
  LD keep = rounding_scale();
  rounding_scale() = keep * (1 + big / (was + m.hmin));
  struct Back { LD v; ~Back() { rounding_scale() = v; } } back{keep};
  relation(s, m, n, nm, em, ax, uL, uT, uM, w.empty() ? "repeated" : w);
}
void c15_repeat(Src& s) {
  Opt o;
  o.maxsteps = 10;
  Model m = gen_model(s, o);
  m.fields = all_fields(s, true);
  std::string t = deck(s, m);
  s.note() << describe(m);
  std::vector<std::string> op;
  if (s.chance(1, 3)) op.push_back("--use_tpetra");
  Run a = serial(s, m, t, op);
  Opt o2;
  o2.maxsteps = 3;
  if (s.flip()) { Model x = gen_model(s, o2); serial(s, x, deck(s, x)); }   // something else in between
  Run b = serial(s, m, t, op);
  VP_REQUIRE(a.out.times == b.out.times && a.out.nvars == b.out.nvars && a.out.evars == b.out.evars, "identical runs: records or variables differ");
  for (size_t k = 0; k < a.out.times.size(); ++k)
    VP_REQUIRE(a.out.nval[k] == b.out.nval[k] && a.out.evalv[k] == b.out.evalv[k], "identical runs give different values in record " << k);
  tags(s, m);
  s.nontrivial(a.out.times.size() > 1 && m.ne() > 1);
}
// ---------------------------------------------------------------- C27
void c27_cadence(Src& s) {
  Opt o;
  o.maxcells = 1; o.maxbodies = 1; o.maxsteps = 60;
  Model m = gen_model(s, o);
  m.freq = s.chance(1, 6) ? 0 : (int)s.size(1, s.flip() ? 10 : 100);
  m.fields = "displacement lumped_mass velocity";
  std::string t = deck(s, m);
  s.note() << describe(m);
  Run r = serial(s, m, t);
  check_times(m, r.out);
  Ref R = reference(m);
  if (!R.bad) {
    Dev d;
    auto h = history(r.out);
    for (size_t k = 0; k < h.size(); ++k) compare_record(d, m, R, R.rec[k], h[k], k == 0);
  }
  s.label(m.freq == 0 ? "freq=0" : m.freq == 1 ? "freq=1" : m.freq > m.steps ? "freq>steps" : "1<freq<=steps");
  s.nontrivial(m.steps > 2);
}
// ---------------------------------------------------------------- C17
void c17_parallel(Src& s) {
  Opt o;
  o.maxcells = 3; o.maxsteps = 12; o.mincells = 2;
  Model m = gen_model(s, o);
  m.fields = HF;
  m.aux_ids = s.flip();
  bool tp = s.chance(1, 3);
  std::string text = deck(s, m);
  // partition: every rank gets an element
  std::vector<int> own(m.ne());
  if (m.ne() < s.np) throw Discard();
  if (s.flip()) { for (int& r : own) r = (int)s.below(s.np); }
  else { auto ord = s.perm(3); std::vector<int> q = iota(m.ne()); int ax = ord[0]; std::sort(q.begin(), q.end(), [&](int a, int b) { return std::make_pair(m.X[m.el[a][0]][ax], a) < std::make_pair(m.X[m.el[b][0]][ax], b); }); for (int i = 0; i < m.ne(); ++i) own[q[i]] = i * s.np / m.ne(); }
  auto p = s.perm(m.ne());
  for (int r = 0; r < s.np; ++r) own[p[r]] = r;
  std::vector<std::vector<int>> mine(s.np);
  for (int e = 0; e < m.ne(); ++e) mine[own[e]].push_back(e);
  s.note() << describe(m) << "; " << s.np << " ranks" << (tp ? ", Tpetra" : "");
  Ref R = reference(m);
  if (R.bad) throw Discard();
  std::vector<int> nodes, elems;
  unsigned long key = part_key(s);
  Model l = part(m, mine[s.rank], nodes, elems, true, key);
  l.aux_ids = m.aux_ids;
  std::string sfx = "." + std::to_string(s.np) + "." + std::to_string(s.rank);
  unlink(("r.out.e" + sfx).c_str());
  exo_write(to_exo(l), "m.g" + sfx);
  if (s.rank == 0) put_text("in.txt", text);
  MPI_Barrier(MPI_COMM_WORLD);
  std::string log;
  std::vector<std::string> a;
  if (tp) a.push_back("--use_tpetra");
  a.push_back("in.txt");
  int rc = app(a, log);
  VP_REQUIRE(rc == 0, "rank " << s.rank << " returned " << rc << "\n" << log.substr(0, 1500));
  MPI_Barrier(MPI_COMM_WORLD);
  if (s.rank == 0) {
    double dt = printed_dt(log);
    VP_REQUIRE(near(dt, (double)R.dtcrit, 1e-5, 0), "reported stable time step " << dt << ", expected " << (double)R.dtcrit);
  }
  Exo out;
  VP_REQUIRE(exo_read("r.out.e" + sfx, out), "rank " << s.rank << " wrote no readable output file");
  VP_REQUIRE(out.nid == l.nid && out.eid == l.eid, "ids in the output of rank " << s.rank);
  check_times(m, out);
  auto h = history(out);
  Dev d;
  for (size_t k = 0; k < h.size(); ++k) compare_record(d, m, R, R.rec[k], h[k], k == 0, &nodes, &elems);
  // shared nodes: the same bits everywhere
  int nv = (int)out.nvars.size(), bad = 0;
  std::string why;
  for (size_t k = 0; k < h.size(); ++k)
    for (int v = 0; v < nv; ++v) {
      std::vector<double> lo(m.nn(), INFINITY), hi(m.nn(), -INFINITY), glo(m.nn()), ghi(m.nn());
      for (size_t i = 0; i < nodes.size(); ++i) lo[nodes[i]] = hi[nodes[i]] = out.nval[k][v][i];
      MPI_Allreduce(lo.data(), glo.data(), m.nn(), MPI_DOUBLE, MPI_MIN, MPI_COMM_WORLD);
      MPI_Allreduce(hi.data(), ghi.data(), m.nn(), MPI_DOUBLE, MPI_MAX, MPI_COMM_WORLD);
      for (int n = 0; n < m.nn(); ++n) if (glo[n] != ghi[n] && !bad++) why = out.nvars[v] + " of shared node " + std::to_string(n) + " in record " + std::to_string(k) + ": " + num(glo[n]) + " and " + num(ghi[n]);
    }
  if (bad) fail("ranks disagree on " + why);
  int shared = 0;
  { std::vector<int> c(m.nn(), 0); for (int r = 0; r < s.np; ++r) { std::set<int> u; for (int e : mine[r]) for (int n : m.el[e]) u.insert(n); for (int n : u) ++c[n]; } for (int x : c) shared += x > 1; }
  s.label("np=" + std::to_string(s.np));
  s.label(tp ? "tpetra" : "native");
  s.label(key ? "own numbering on every rank" : "common numbering");
  s.maxi("deviation/tolerance", (double)d.worst);
  tags(s, m);
  s.nontrivial(shared > 0 && moves(R));
}
// ---------------------------------------------------------------- C22
void c22_run(Src& s) {
  bool par = s.np > 1;
  Opt o;
  o.contact = true; o.minbodies = o.maxbodies = 2; o.maxcells = 2; o.mincells = par && s.chance(2, 3) ? 2 : 1; o.maxsteps = 12; o.far = s.flip();
  Model m = gen_model(s, o);
  m.fields = "displacement velocity acceleration internal_force contact_force lumped_mass";
  search_mode = (int)s.below(3);
  struct Off { ~Off() { search_mode = -1; } } off;
  bool vis = s.chance(1, 3);
  std::string text = deck(s, m, vis ? "contact visualization: visualize_contact_entities on visualize_bounding_boxes off file_name cv.e" : "");
  s.note() << describe(m) << (vis ? ", visualization" : "") << "\n" << text;
  Ref R = reference(m);
  if (R.bad) throw Discard();
  std::vector<std::string> op;
  bool tp = par && s.chance(1, 3);
  if (tp) op.push_back("--use_tpetra");
  op.push_back("in.txt");
  std::vector<int> nodes = iota(m.nn()), elems = iota(m.ne());
  std::string sfx, log;
  Model l = m;
  if (par) {
    if (m.ne() < s.np) throw Discard();
    std::vector<int> own(m.ne());
    if (s.flip()) { for (int& r : own) r = (int)s.below(s.np); }
    else { auto ord = s.perm(3); std::vector<int> q = iota(m.ne()); int ax = ord[0]; std::sort(q.begin(), q.end(), [&](int a, int b) { return std::make_pair(m.X[m.el[a][0]][ax], a) < std::make_pair(m.X[m.el[b][0]][ax], b); }); for (int i = 0; i < m.ne(); ++i) own[q[i]] = i * s.np / m.ne(); }
    auto p = s.perm(m.ne());
    for (int r = 0; r < s.np; ++r) own[p[r]] = r;
    std::vector<int> mine;
    for (int e = 0; e < m.ne(); ++e) if (own[e] == s.rank) mine.push_back(e);
    l = part(m, mine, nodes, elems, true, part_key(s));
    l.aux_ids = m.aux_ids;
    sfx = "." + std::to_string(s.np) + "." + std::to_string(s.rank);
  }
  unlink(("r.out.e" + sfx).c_str()); unlink(("cv.out.e" + sfx).c_str());
  exo_write(to_exo(l), "m.g" + sfx);
  if (s.rank == 0) put_text("in.txt", text);
  if (par) MPI_Barrier(MPI_COMM_WORLD);
  int rc = app(op, log);
  VP_REQUIRE(rc == 0, "the run failed with status " << rc << "\n" << log.substr(0, 2000));
  Exo out;
  VP_REQUIRE(exo_read("r.out.e" + sfx, out), "no readable output file");
  check_times(m, out);
  auto h = history(out);
  Dev d;
  for (size_t k = 0; k < h.size(); ++k) compare_record(d, m, R, R.rec[k], h[k], k == 0, &nodes, &elems);
  VP_REQUIRE(out.nvars.size() == 16, "number of nodal variables " << out.nvars.size());
  if (vis) {
    Exo v;
    VP_REQUIRE(exo_read("cv.out.e" + sfx, v), "no readable contact visualization file");
    VP_REQUIRE(v.times == out.times, "records of the contact visualization file");
    VP_REQUIRE(v.blocks.size() == 2 && v.blocks[0].name == "contact_faces" && v.blocks[1].name == "contact_nodes", "blocks of the contact visualization file");
    VP_REQUIRE((v.nvars.size() == 4 || v.nn() == 0) && v.gvars.size() == 1 && v.gvars[0] == "num_contacts", "variables of the contact visualization file");
    std::map<int, int> local;
    for (size_t i = 0; i < nodes.size(); ++i) local[nodes[i]] = (int)i;
    // faces here: those of the elements of this rank; the triangles are matched by where they are
    std::set<int> here(elems.begin(), elems.end());
    LD tol = 1e-14L, big = 0;
    for (auto& p : m.X) for (LD c : p) big = std::max(big, fabsl(c));
    tol *= big;
    auto at = [&](int i) { return V3{v.x[i], v.y[i], v.z[i]}; };
    int nt = v.blocks[0].n(), nc = v.blocks[1].n();
    std::vector<int> used(4 * R.con.faces.size(), 0), which(nt, -1), cn(nc, -1);
    int want = 0;
    for (auto& f : R.con.faces) want += here.count(f.e) ? 4 : 0;
    VP_REQUIRE(nt == want, "triangles in the contact visualization file: " << nt << ", expected " << want);
    for (int i = 0; i < nt; ++i)
      for (size_t k = 0; k < R.con.faces.size() && which[i] < 0; ++k) {
        if (!here.count(R.con.faces[k].e)) continue;
        auto& q = R.con.faces[k].n;
        V3 cen = {0, 0, 0};
        for (int n : q) cen = vadd(cen, m.X[n], 0.25L);
        for (int t = 0; t < 4; ++t) {
          auto& c = v.blocks[0].conn;
          if (!used[4 * k + t] && vnorm(vsub(at(c[3 * i]), m.X[q[t]])) == 0 && vnorm(vsub(at(c[3 * i + 1]), m.X[q[(t + 1) % 4]])) == 0 && vnorm(vsub(at(c[3 * i + 2]), cen)) <= tol) { which[i] = (int)(4 * k + t); used[4 * k + t] = 1; break; }
        }
      }
    std::set<int> cs(R.con.nodes.begin(), R.con.nodes.end());
    for (int i = 0; i < nt; ++i) VP_REQUIRE(which[i] >= 0, "a triangle of the contact visualization file is not on the contact surface");
    for (int i = 0; i < nc; ++i) {
      V3 p = at(v.blocks[1].conn[i]);
      for (int q : nodes) if (cs.count(q) && vnorm(vsub(p, m.X[q])) == 0) cn[i] = q;
      VP_REQUIRE(cn[i] >= 0, "a node of the contact visualization file is not a contact node of this rank");
    }
    VP_REQUIRE(std::set<int>(cn.begin(), cn.end()).size() == (size_t)nc, "a contact node twice in the visualization file");
    if (!par) VP_REQUIRE(nc == (int)R.con.nodes.size(), "contact nodes in the visualization file: " << nc << ", expected " << R.con.nodes.size());
    auto var = [&](const std::string& n) { int i = idx(v.nvars, n); VP_REQUIRE(i >= 0, "no variable " << n << " in the visualization file"); return i; };
    if (v.nn()) {
    int ud[3] = {var("displacement_x"), var("displacement_y"), var("displacement_z")}, st = var("contact_status");
    for (size_t k = 0; k < v.times.size(); ++k) {
      const Rec& r = R.rec[k];
      auto disp = [&](int i, const V3& w, const char* what) {
        for (int c = 0; c < 3; ++c) cmp(d, v.nval[k][ud[c]][i], w[c], R.tol.u + tol, std::string(what) + " in the contact visualization file, record " + std::to_string(k));
      };
      int on = 0, vague = 0;
      for (int i = 0; i < nt; ++i) {
        auto& q = R.con.faces[which[i] / 4].n;
        int t = which[i] % 4;
        V3 cen = {0, 0, 0};
        for (int n : q) cen = vadd(cen, r.u[n], 0.25L);
        auto* c = &v.blocks[0].conn[3 * i];
        disp(c[0], r.u[q[t]], "displacement of a triangle"); disp(c[1], r.u[q[(t + 1) % 4]], "displacement of a triangle"); disp(c[2], cen, "displacement of a face centre");
        int w = k ? r.ctri[which[i]] : 0;
        for (int z = 0; z < 3; ++z) VP_REQUIRE(w == 2 || v.nval[k][st][c[z]] == w, "contact status of a triangle is " << v.nval[k][st][c[z]] << " in record " << k << ", expected " << w);
        on += w == 1; vague += w == 2;
      }
      for (int i = 0; i < nc; ++i) {
        int c = v.blocks[1].conn[i];
        disp(c, r.u[cn[i]], "displacement of a contact node");
        int z = (int)(std::find(R.con.nodes.begin(), R.con.nodes.end(), cn[i]) - R.con.nodes.begin()), w = k ? r.cnode[z] : 0;
        VP_REQUIRE(w == 2 || v.nval[k][st][c] == w, "contact status of a node is " << v.nval[k][st][c] << " in record " << k << ", expected " << w);
      }
      double g = v.gval[k][0];
      VP_REQUIRE(g >= on && g <= on + vague, "number of contacts in record " << k << " is " << g << ", triangles in contact: " << on);
    }
    } else for (auto& g : v.gval) VP_REQUIRE(g[0] == 0, "contacts on a rank without contact entities");
  }
  s.label(R.touched ? "contact" : "no contact");
  s.label("np=" + std::to_string(s.np));
  if (vis) s.label("visualization");
  if (tp) s.label("tpetra");
  s.maxi("deviation/tolerance", (double)d.worst);
  LD cm = 0;
  for (auto& r : R.rec) for (auto& w : r.fc) cm = std::max(cm, vnorm(w));
  if (cm > 0) s.maxi("contact force tolerance, relative to the force", (double)(R.tol.c / cm));
  s.nontrivial(R.touched);
}
// ---------------------------------------------------------------- C31
// the number that follows a phrase; the phrase must stand there exactly `times` times
double told(const std::string& log, const std::string& key, int times = 1) {
  int n = 0;
  double v = NAN;
  for (size_t p = log.find(key); p != std::string::npos; p = log.find(key, p + 1)) { ++n; v = strtod(log.c_str() + p + key.size(), 0); }
  VP_REQUIRE(n == times, "'" << key << "' is reported " << n << " times, expected " << times << "\n" << log.substr(0, 1500));
  return v;
}
std::vector<std::string> timing_files() {
  std::vector<std::string> v;
  DIR* d = opendir(".");
  while (dirent* e = d ? readdir(d) : nullptr) if (!strncmp(e->d_name, "nimble_timing_data_n", 20)) v.push_back(e->d_name);
  if (d) closedir(d);
  return v;
}
void c31_report(Src& s) {
  bool par = s.np > 1, con = s.flip();
  Opt o;
  o.maxsteps = 60; o.mincells = par ? 2 : 1; o.maxblocks = 4;
  if (con) { o.contact = true; o.minbodies = o.maxbodies = 2; o.maxcells = 2; o.maxsteps = 15; o.far = s.flip(); }
  Model m = gen_model(s, o);
  m.fields = "displacement";
  if (m.steps <= 3 && s.flip()) {   // around the stable step
    double f = s.pick({0.999, 1.001, 1.5, 3.0});
    LD c = INFINITY;
    for (int e = 0; e < m.ne(); ++e) c = std::min(c, charlen(m.hex(e)) / bulkspeed(m.mat[m.eb[e]]));
    m.tf = m.t0 + f * m.steps * (double)c;
  }
  search_mode = (int)s.below(3);
  struct Off { ~Off() { search_mode = -1; } } off;
  int timing = (int)s.below(3);
  std::string text = deck(s, m, timing == 2 ? "" : std::string("write timing data file: ") + (timing ? "on" : "off"));
  s.note() << describe(m) << "\n" << text;
  Ref R = reference(m, true);
  if (R.bad) throw Discard();
  std::vector<std::string> op;
  bool tp = s.chance(1, 3);
  if (tp) op.push_back("--use_tpetra");
  op.push_back("in.txt");
  if (s.flip()) std::reverse(op.begin(), op.end());
  std::vector<int> nodes = iota(m.nn()), elems = iota(m.ne());
  std::string sfx, log;
  Model l = m;
  if (par) {
    if (m.ne() < s.np) throw Discard();
    std::vector<int> own(m.ne()), mine;
    for (int& r : own) r = (int)s.below(s.np);
    auto p = s.perm(m.ne());
    for (int r = 0; r < s.np; ++r) own[p[r]] = r;
    for (int e = 0; e < m.ne(); ++e) if (own[e] == s.rank) mine.push_back(e);
    l = part(m, mine, nodes, elems, true, part_key(s));
    l.aux_ids = m.aux_ids;
    sfx = "." + std::to_string(s.np) + "." + std::to_string(s.rank);
  }
  unlink(("r.out.e" + sfx).c_str());
  exo_write(to_exo(l), "m.g" + sfx);
  if (s.rank == 0) { put_text("in.txt", text); for (auto& f : timing_files()) unlink(f.c_str()); }
  if (par) MPI_Barrier(MPI_COMM_WORLD);
  int rc = app(op, log);
  VP_REQUIRE(rc == 0, "the run failed with status " << rc << "\n" << log.substr(0, 2000));
  if (par) MPI_Barrier(MPI_COMM_WORLD);
  bool root = s.rank == 0;
  int one = root ? 1 : 0;
  double v = told(log, "-- Number of ranks = ", one);
  VP_REQUIRE(!root || v == s.np, "the report names " << v << " ranks");
  told(log, "-- Using Tpetra interface", root && tp ? 1 : 0);
  v = told(log, " Number of Nodes = ", root && !par ? 1 : 0);
  VP_REQUIRE(!root || par || v == m.nn(), "the report names " << v << " nodes, the mesh has " << m.nn());
  v = told(log, " Number of Elements = ", root && !par ? 1 : 0);
  VP_REQUIRE(!root || par || v == m.ne(), "the report names " << v << " elements, the mesh has " << m.ne());
  v = told(log, " Number of Global Blocks = ", one);
  VP_REQUIRE(!root || v == (double)m.bid.size(), "the report names " << v << " blocks, the mesh has " << m.bid.size());
  double dt = (m.tf - m.t0) / m.steps, crit = (double)R.dtcrit;
  v = told(log, "User specified time step:", one);
  VP_REQUIRE(!root || near(v, dt, 1e-5, 0), "reported time step " << v << ", asked for " << dt);
  v = told(log, "Approximate maximum stable time step:", one);
  VP_REQUIRE(!root || near(v, crit, 1e-5, 0), "reported stable time step " << v << ", expected " << crit);
  bool warned = log.find("exceeds the computed maximum stable time step") != std::string::npos;
  if (!near(dt, crit, 1e-9, 0)) VP_REQUIRE(warned == (root && dt > crit), "time step " << dt << ", stable one " << crit << (warned ? ": warned" : ": not warned"));
  // progress: true, ascending, from 0 to 100
  std::istringstream in(log);
  std::string ln;
  std::vector<int> pc;
  while (std::getline(in, ln)) { size_t p = ln.find("% complete"); if (p != std::string::npos) pc.push_back(atoi(ln.c_str())); }
  if (root) {
    VP_REQUIRE(pc.size() >= 2 && pc[0] == 0 && pc.back() == 100, "progress does not go from 0 to 100");
    for (size_t i = 1; i < pc.size(); ++i) {
      VP_REQUIRE(pc[i] > pc[i - 1], "progress goes from " << pc[i - 1] << " to " << pc[i]);
      bool some = false;
      for (int k = 1; k <= m.steps; ++k) some |= 100 * k / m.steps == pc[i];
      VP_REQUIRE(some, "no step of " << m.steps << " completes " << pc[i] << "%");
    }
    if (m.steps % 10 == 0) VP_REQUIRE(pc.size() == 11, pc.size() << " lines of progress in " << m.steps << " steps");
  } else VP_REQUIRE(pc.empty(), "progress is reported by rank " << s.rank);
  // contact
  int least = 0, vague = 0;
  if (m.penalty > 0) {
    v = told(log, "number of triangular contact facets (primary blocks): ", one);
    VP_REQUIRE(!root || v == 4.0 * R.con.faces.size(), "reported contact facets " << v << ", expected " << 4 * R.con.faces.size());
    v = told(log, "number of contact nodes (secondary blocks): ", one);
    // a contact node counts once, whichever rank holds it
    if (root) VP_REQUIRE(par ? v <= (double)R.con.nodes.size() : v == (double)R.con.nodes.size(), "reported contact nodes " << v << ", expected " << R.con.nodes.size());
    std::set<int> here(elems.begin(), elems.end());
    for (size_t k = 1; k < R.all.size(); ++k) {
      int w = 0;
      for (size_t t = 0; t < R.all[k].ctri.size(); ++t) if (here.count(R.con.faces[t / 4].e)) { if (R.all[k].ctri[t] == 1) w = 1; else if (R.all[k].ctri[t] == 2 && !w) w = 2; }
      least += w == 1; vague += w == 2;
    }
    std::string key = " Rank " + std::to_string(s.rank) + " has ";
    bool there = log.find(key) != std::string::npos;
    if (there) {
      v = told(log, key);
      VP_REQUIRE(v >= least && v <= least + vague && v > 0, "rank " << s.rank << " reports " << v << " steps in contact, expected " << least);
      v = told(log, "contact entries (out of ");
      VP_REQUIRE(v == m.steps, "steps in contact are said to be out of " << v << " of " << m.steps);
    } else VP_REQUIRE(least == 0, "rank " << s.rank << " does not report its " << least << " steps in contact");
    s.label(least ? "contact" : "no contact");
  } else VP_REQUIRE(log.find("ontact") == std::string::npos, "contact in the report of a run without contact");
  // times
  double tot = told(log, "Total step time = ", one), upd = told(log, " --- Update A, V, U: ", one), frc = told(log, " --- Force: ", one), exo = told(log, " --- Exodus Write = ", one), ct = told(log, " --- Contact time: ", root && m.penalty > 0 ? 1 : 0);
  told(log, " --- Vector Reduction = ", root && par ? 1 : 0);
  if (root) {
    double sum = upd + frc + exo + (m.penalty > 0 ? ct : 0);
    VP_REQUIRE(tot > 0 && upd > 0 && frc > 0 && exo >= 0 && (m.freq == 0) == (exo == 0), "times that cannot be: total " << tot << " update " << upd << " force " << frc << " output " << exo);
    VP_REQUIRE(sum <= tot * 1.0001, "the parts of the time, " << sum << ", exceed the total, " << tot);
    auto f = timing_files();
    VP_REQUIRE((int)f.size() == (timing == 1), f.size() << " timing files, " << (timing == 1 ? "one" : "none") << " asked for");
    if (timing == 1) {
      VP_REQUIRE(f[0].compare(0, 21 + std::to_string(s.np).size(), "nimble_timing_data_n" + std::to_string(s.np) + "_") == 0 && f[0].size() > 30 && f[0].substr(f[0].size() - 4) == ".log" && f[0].find(' ') == std::string::npos, "timing file named " << f[0]);
      std::ifstream tf(f[0]);
      double w[6], more;
      for (double& x : w) VP_REQUIRE(bool(tf >> x), "the timing file has less than six numbers");
      VP_REQUIRE(!(tf >> more), "the timing file has more than six numbers");
      VP_REQUIRE(w[0] == s.np && near(w[1], tot, 1e-4, 0) && near(w[2], frc, 1e-4, 0) && near(w[3], m.penalty > 0 ? ct : 0, 1e-4, 0) && near(w[4], exo, 1e-4, 0) && w[5] >= 0 && w[5] <= tot, "the timing file differs from the printed times");
      s.label("timing file");
    }
  }
  s.label("np=" + std::to_string(s.np));
  s.label(dt > crit ? "too large a step" : "stable step");
  s.nontrivial(m.steps > 1);
}
}  // namespace
int main(int argc, char** argv) {
  std::vector<Check> c = {
    {"C03", "run-conditions", c03_run, 6000, 90000, "whole runs with initial and prescribed conditions; non-trivial: a prescribed condition acts", {}},
    {"C07", "run-mass", c07_run, 5000, 70000, "whole runs: lumped masses, total mass, reported stable time step and the warning; non-trivial: several elements", {}},
    {"C12", "run-fields", c12_fields, 3500, 50000, "two runs of a model with different requests: variable names, mesh, times, all values against an independent simulation; non-trivial: the model moves and several fields are requested", {}},
    {"C13", "run-history", c13_history, 5000, 80000, "whole runs against an independent long-double velocity-Verlet simulation, all fields; non-trivial: the model moves and takes several steps", {}},
    {"C13", "run-output-independence", c13_output, 2500, 40000, "the same model with different output cadence and fields: common records agree; non-trivial: several common records", {}},
    {"C14", "run-conservation", c14_conserve, 1200, 20000, "free bodies: momentum, angular momentum, energy at every step; non-trivial: it moves for several steps", {}},
    {"C14", "run-translation", c14_translate, 3000, 40000, "uniform initial velocity; non-trivial: it moves for several steps", {}},
    {"C14", "run-bodies", c14_bodies, 2500, 40000, "several bodies against one of them alone; non-trivial: that body moves", {}},
    {"C15", "run-numbering", c15_number, 2500, 40000, "a model and the same model renumbered, reordered, with other ids, split blocks; non-trivial: it moves", {}},
    {"C15", "run-placement", c15_place, 2500, 40000, "a model and the same model moved, axis-permuted, in other units; non-trivial: it moves", {}},
    {"C15", "run-repeat", c15_repeat, 1500, 20000, "the same run twice in one process, maybe another in between; non-trivial: several elements and records", {}},
    {"C31", "run-report", c31_report, 4000, 60000, "what a run prints and its timing file, against the model and an independent simulation: counts, time steps and the warning, progress, contact, times; non-trivial: several steps", {}},
    {"C31", "run-report-parallel", c31_report, 1200, 16000, "the same on 2..4 ranks, every rank; non-trivial: several steps", {2, 3, 4}},
    {"C22", "run-contact", c22_run, 6000, 90000, "two bodies touching in whole runs, with a search of every node against every triangle, against an independent simulation; the visualization file; non-trivial: there is contact", {}},
    {"C22", "run-contact-parallel", c22_run, 2000, 30000, "the same, decomposed on 2..4 ranks; non-trivial: there is contact", {2, 3, 4}},
    {"C27", "run-cadence", c27_cadence, 5000, 70000, "records and their times for any step count and frequency; non-trivial: more than two steps", {}},
    {"C17", "run-parallel", c17_parallel, 2400, 30000, "decomposed runs on 2..4 ranks against the independent serial simulation; shared nodes bit for bit; non-trivial: shared nodes and motion", {2, 3, 4, 6}},
  };
  return vp_main(argc, argv, c, run_hooks());
}
