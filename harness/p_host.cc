// C16 quasistatic runs, C24 the host model data against the portable one, and what the host path alone
// uses: linear-system rows of kinematic conditions (C03), block tangents (C08), field storage (C11)

#include "host.h"
#include <malloc.h>
namespace {
// ---------------------------------------------------------------- C16
struct Said { bool converged = true; double tol = 0; std::vector<double> res; };   // what the log reports of a step
std::vector<Said> steps_said(const std::string& log) {
  std::vector<Said> v;
  std::istringstream in(log);
  std::string l;
  while (std::getline(in, l)) {
    size_t p = l.find("convergence tolerance ");
    if (l.compare(0, 5, "Step ") == 0 && p != std::string::npos) { v.push_back(Said()); v.back().tol = strtod(l.c_str() + p + 22, 0); }
    p = l.find(": residual = ");
    if (!v.empty() && p != std::string::npos) v.back().res.push_back(strtod(l.c_str() + p + 13, 0));
    if (!v.empty() && l.find("failed to converge") != std::string::npos) v.back().converged = false;
  }
  return v;
}
Run quasi_run(const Model& m, const std::string& text) {
  Run r;
  put_text("in.txt", text);
  unlink("m.g"); unlink("r.out.e");
  exo_write(to_exo(m), "m.g");
  unlink("log.txt");
  // in a process of its own: a material law that meets a state it cannot evaluate ends the process
  r.rc = in_child([&] {
    std::string log;
    int rc = app({"in.txt"}, log);
    put_text("log.txt", log);
    if (rc) throw 1;
  });
  std::ifstream in("log.txt");
  r.log = in ? std::string((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>()) : "the process was ended";
  r.have = exo_read("r.out.e", r.out);
  return r;
}
std::string host_fields(Src& s) {
  std::vector<std::string> f = {"displacement", "velocity", "acceleration", "internal_force", "external_force", "contact_force", "reference_coordinate", "volume", "stress", "deformation_gradient"}, g;
  if (s.flip()) g.push_back("ipt0" + std::to_string(s.range(1, 8)) + (s.flip() ? "_stress" : "_deformation_gradient"));
  for (auto& x : f) if (x == "displacement" || x == "internal_force" || s.chance(2, 3)) g.push_back(x);
  std::string r;
  for (int i : s.perm((int)g.size())) r += (r.empty() ? "" : " ") + g[i];
  return r;
}
std::vector<V3> vectors(const Hist& h, const std::string& f, int n) {
  std::vector<V3> v(n);
  for (int c = 0; c < 3; ++c) { auto it = h.n.find(f + XS[c]); VP_REQUIRE(it != h.n.end() && (int)it->second.size() == n, "no field " << f << XS[c] << " in the file"); for (int i = 0; i < n; ++i) v[i][c] = it->second[i]; }
  return v;
}
LD qnorm(const std::vector<V3>& f, const std::vector<int>& fixed) {
  LD a = 0, b = 0;
  for (size_t i = 0; i < f.size(); ++i) for (int c = 0; c < 3; ++c) if (!fixed[3 * i + c]) { LD v = f[i][c]; a += v * v; if (!(fabsl(v) <= b)) b = fabsl(v); }
  return sqrtl(a) + 20 * b;
}
// the records of a quasistatic run, each checked on its own; returns how many there are
struct Balance { LD floor = 0, worst = 0; std::vector<LD> r0, rk; bool vague = false, moved = false; };
Balance check_quasi(Src& s, const Model& m, const Quasi& q, const Run& r, const std::vector<Said>& said) {
  Balance out;
  int N = m.nn();
  auto H = history(r.out);
  VP_REQUIRE(!H.empty(), "no record in the output file");
  Dev d;
  LD Km = 0, Xm = 0;
  for (auto& x : m.mat) Km = std::max(Km, x.K + 4 * x.G / 3);
  for (auto& p : m.X) for (LD v : p) Xm = std::max(Xm, fabsl(v));
  LD far = 1 + Xm / m.hmin, hr = m.hmax / m.hmin, s0 = 1e-15L * Km * far * hr;
  out.floor = (sqrtl(3.0L * N) + 20) * 32 * s0 * m.hmax * m.hmax;
  std::vector<V3> u(N, V3{0, 0, 0}), v = u;
  // a value like g t + z may cancel
  LD span = fabsl((LD)m.tf - m.t0), small = span ? 1e-14L * q.amp * m.hmin * (1 + (fabsl((LD)m.t0) + fabsl((LD)m.tf)) / span) : 0;
  double t = m.t0, dt0 = (m.tf - m.t0) / m.steps;
  auto val = [&](const BC& b, int n, LD tt) { return b.f(m.X[n][0], m.X[n][1], m.X[n][2], tt); };
  for (int k = 0; k <= m.steps; ++k) {
    double tp = t;
    if (k) t += dt0;
    LD dt = (LD)t - (LD)tp;
    auto start = u;
    for (auto& b : m.bc) for (int n : m.sets[b.set].nodes) {
      if (b.kind == 0) continue;
      LD w = val(b, n, t);
      if (b.kind == 1) { v[n][b.coord] = w; u[n][b.coord] = start[n][b.coord] + w * dt; }
      else if (k) { v[n][b.coord] = (w - start[n][b.coord]) / dt; u[n][b.coord] = w; }
    }
    LD r0 = 0;
    bool bad = false;
    Rec a;
    if (k) { internal(m, u, a, bad); r0 = qnorm(a.f, q.fixed); out.r0.push_back(bad ? -1 : r0); }
    out.vague = out.vague || bad;
    if (k >= (int)H.size()) break;
    const Hist& h = H[k];
    std::string at = " in record " + std::to_string(k);
    auto got = vectors(h, "displacement", N), f = vectors(h, "internal_force", N);
    LD um = 0, vm = 0;
    for (auto& x : got) um = std::max(um, vnorm(x));
    for (auto& x : v) for (LD y : x) vm = std::max(vm, fabsl(y));
    for (int i = 0; i < N; ++i) for (int c = 0; c < 3; ++c) {
      VP_REQUIRE(std::isfinite((double)got[i][c]), "displacement of node " << i << " is not finite" << at);
      if (q.fixed[3 * i + c]) cmp(d, (double)got[i][c], u[i][c], 1e-13L * (um + vm * fabsl(dt)) + small, "prescribed displacement " + std::string(XS[c]) + " of node " + std::to_string(i) + at);
      if (k == 0) VP_REQUIRE(got[i][c] == 0, "displacement of node " << i << " in the initial record");
    }
    // what the file holds belongs to the displacement it holds
    Ref R;
    R.mass.assign(N, 0);
    Rec c;
    bool wild = false;
    c.u = got; c.v = v;
    c.a.assign(N, V3{0, 0, 0}); c.fc = c.a;
    internal(m, got, c, wild);
    if (!wild) {
      LD smax = 0;
      for (auto& e : c.sig) for (auto& g : e) smax = std::max(smax, nrm(g));
      Tol& T = R.tol;
      T.far = far * 0.01L;
      T.u = 0; T.a = 0;
      T.v = 1e-13L * vm + (4e-15L * um + small) / (dt0 != 0 ? fabsl((LD)dt0) : 1) + (span ? small / span : 0);
      T.F = 1e-15L * far * hr * 4; T.s = 4 * s0 + 1e-12L * smax;
      T.f = 32 * T.s * m.hmax * m.hmax;
      T.vol = m.hmax * m.hmax * m.hmax * (T.F * 8);
      R.vscale = T.v * 1e13L;
      if (k == 0) c.f = c.a;
      compare_record(d, m, R, c, h, k == 0);
      for (auto& kv : h.n) if (kv.first.compare(0, 12, "acceleration") == 0) for (double x : kv.second) VP_REQUIRE(x == 0, "an acceleration" << at);
    }
    if (k) {
      LD rk = wild ? qnorm(f, q.fixed) : qnorm(c.f, q.fixed);
      out.rk.push_back(rk);
      LD want = bad ? (LD)-1 : q.tol * r0;
      if ((int)said.size() >= k) {
        if (want < 0) want = said[k - 1].tol * 1.001L;
        else if (said[k - 1].tol > 0) VP_REQUIRE(fabsl(said[k - 1].tol - want) <= 2e-3L * want + q.tol * out.floor, "step " << k << ": reported convergence tolerance " << said[k - 1].tol << ", the relative tolerance times the initial residual is " << (double)want);
      }
      if (want >= 0) {
        LD lim = want * (1 + 1e-6L) + (wild ? 0 : out.floor);
        VP_REQUIRE(rk <= lim, "record " << k << ": residual " << (double)rk << " of the unconstrained degrees of freedom, allowed " << (double)want << " = " << q.tol << " x " << (double)r0 << " (rounding " << (double)out.floor << ")");
        out.worst = std::max(out.worst, rk / lim);
      }
      if (r0 > 100 * out.floor) out.moved = true;
    }
    u = got;
  }
  s.maxi("deviation/tolerance", (double)d.worst);
  s.maxi("residual/allowed", (double)out.worst);
  return out;
}
// ---------------------------------------------------------------- C31
void c31_quasi(Src& s) {
  Quasi q;
  Model m = gen_quasi(s, q);
  m.fields = "displacement internal_force";
  std::string text = deck(s, m);
  s.note() << describe(m) << ", amplitude " << q.amp << (q.wild ? " (wild)" : "") << "\n" << text;
  Run r = quasi_run(m, text);
  if (r.log == "the process was ended") { s.label("ended"); return; }
  VP_REQUIRE(r.have, "no readable output file\n" << r.log.substr(0, 3000));
  std::vector<std::set<int>> near_to(m.nn());
  for (auto& e : m.el) for (int a : e) near_to[a].insert(e.begin(), e.end());
  size_t nz = 0;
  for (auto& x : near_to) nz += 9 * x.size();
  Balance b = check_quasi(s, m, q, r, steps_said(r.log));
  std::istringstream in(r.log);
  std::string l;
  int step = 0, it = -1, zeros = 0, complete = 0, begun = 0, failed = 0, bad = 0;
  double tol = 0, res = 0, t = m.t0, dt = (m.tf - m.t0) / m.steps;
  auto done = [&](bool last) {   // at the end of what is said of a step
    if (!step) return;
    bool over = !(res <= tol);
    if (last && r.rc) { VP_REQUIRE(failed + bad > 0, "the run failed in step " << step << " and does not say so\n" << r.log.substr(0, 3000)); return; }
    VP_REQUIRE(!over, "step " << step << " ends with a reported residual " << res << " above the tolerance " << tol);
    if ((size_t)step <= b.rk.size()) {
      LD k = b.rk[step - 1];
      VP_REQUIRE(fabsl(k - res) <= 1e-3L * k + b.floor, "the last reported residual of step " << step << " is " << res << ", the one of the record is " << (double)k);
    }
  };
  auto num = [&](const std::string& key) { size_t p = l.find(key); VP_REQUIRE(p != std::string::npos, "no '" << key << "' in: " << l); return strtod(l.c_str() + p + key.size(), 0); };
  while (std::getline(in, l)) {
    if (l.compare(0, 19, "Number of nonzeros ") == 0) { ++zeros; double z = num("matrix = "); VP_REQUIRE(z == (double)nz, "reported nonzeros " << z << ", expected " << nz); }
    else if (l.compare(0, 21, "Beginning quasistatic") == 0) ++begun;
    else if (l.compare(0, 5, "Step ") == 0) {
      done(false);
      VP_REQUIRE(atoi(l.c_str() + 5) == ++step && step <= m.steps, "steps are said to go from " << step - 1 << " to: " << l);
      t += dt;
      double a = num(", time "), d = num(", delta_time ");
      VP_REQUIRE(near(a, t, 1e-3, 1e-12 * (std::fabs(m.t0) + std::fabs(m.tf))) && near(d, dt, 1e-3, 1e-12 * (std::fabs(m.t0) + std::fabs(m.tf))), "step " << step << " at " << t << " of length " << dt << " is reported as: " << l);
      tol = num("convergence tolerance ");
      it = -1;
    } else if (l.compare(0, 12, "  iteration ") == 0) {
      VP_REQUIRE(step > 0 && atoi(l.c_str() + 12) == ++it, "iteration " << it << " is reported as: " << l);
      VP_REQUIRE(it == 0 || res > tol * 0.999, "an iteration follows a residual " << res << " within the tolerance " << tol);
      res = num("residual = ");
      if (it == 0 && (size_t)step <= b.r0.size() && b.r0[step - 1] >= 0 && (size_t)step <= b.rk.size()) VP_REQUIRE(fabsl(res - b.r0[step - 1]) <= 1e-3L * b.r0[step - 1] + b.floor, "the first reported residual of step " << step << " is " << res << ", expected " << (double)b.r0[step - 1]);
      if (it) { double c = num("linear cg iterations = "); VP_REQUIRE(c >= 0 && c == std::floor(c), "reported solver iterations: " << l); }
    } else if (l == "Complete.") ++complete;
    else if (l.find("failed to converge!") != std::string::npos) ++failed;
    else if (l.find("is not finite!") != std::string::npos) ++bad;
    if (l.find("maximum iterations:") != std::string::npos) VP_REQUIRE(num("maximum iterations:") == q.limit, "reported iteration limit in: " << l);
    if (l.find("relative tolerance:") != std::string::npos) VP_REQUIRE(near(num("relative tolerance:"), q.tol, 1e-3, 0), "reported relative tolerance in: " << l);
  }
  done(true);
  VP_REQUIRE(zeros == 1 && begun == 1, "the beginning of the run is reported " << begun << " times, the matrix " << zeros << " times");
  VP_REQUIRE(complete == (r.rc == 0), "the run of status " << r.rc << " is reported as complete " << complete << " times");
  VP_REQUIRE(failed + bad == (r.rc != 0 ? 1 : 0), "the run of status " << r.rc << " is reported as failed " << failed + bad << " times");
  if (r.rc == 0) VP_REQUIRE(step == m.steps, "reported steps " << step << " of " << m.steps);
  s.label(r.rc ? "failed" : "converged");
  s.nontrivial(b.moved && step > 1);
}
void same_records(const Exo& a, const Exo& b, size_t upto, const char* what) {
  VP_REQUIRE(a.nvars == b.nvars && a.evars == b.evars, what << ": other variables");
  for (size_t k = 0; k < upto; ++k) VP_REQUIRE(a.times[k] == b.times[k] && a.nval[k] == b.nval[k] && a.evalv[k] == b.evalv[k], what << ": record " << k << " differs");
}
void c16_run(Src& s) {
  Quasi q;
  Model m = gen_quasi(s, q);
  m.fields = host_fields(s);
  std::string text = deck(s, m);
  s.note() << describe(m) << ", amplitude " << q.amp << (q.wild ? " (wild)" : "") << "\n" << text;
  Run r = quasi_run(m, text);
  auto said = steps_said(r.log);
  VP_REQUIRE(r.have, "no readable output file\n" << r.log.substr(0, 3000));
  check_mesh(m, r.out);
  Balance b = check_quasi(s, m, q, r, said);
  size_t rec = r.out.times.size();
  if (r.rc == 0) {
    check_times(m, r.out);
  } else {
    VP_REQUIRE(rec <= (size_t)m.steps, "the run failed although all " << m.steps << " steps were written\n" << r.log.substr(0, 3000));
    size_t k = rec;        // the step that failed
    LD r0 = b.r0.size() >= k ? b.r0[k - 1] : -1;
    int used = said.size() >= k ? (int)said[k - 1].res.size() - 1 : -1;
    s.label("failed");
    bool limit = q.limit < 60 && used >= q.limit;
    VP_REQUIRE(q.wild || limit || (r0 >= 0 && q.tol * r0 < b.floor), "step " << k << " of a moderate load failed (initial residual " << (double)r0 << ", rounding " << (double)b.floor << ")\n" << r.log.substr(0, 3000));
  }
  s.label(q.wild ? (r.rc ? "wild failed" : "wild converged") : r.rc ? "moderate failed" : "moderate converged");
  s.nontrivial(b.moved && rec > 1 && !q.wild);
  if (r.rc == 0 && b.moved && (int)said.size() == m.steps) {
    int most = 0, fullsteps = 0;
    for (auto& x : said) most = std::max(most, (int)x.res.size() - 1);
    s.maxi("iterations", most);
    s.label(most > 3 ? "iterations>3" : "iterations<=3");
    if (most >= 1 && s.chance(1, 3)) {
      // the iterations it takes are enough, one less is not
      Model w = m;
      auto set = [&](int n) {
        w.lines.erase(std::remove_if(w.lines.begin(), w.lines.end(), [](const std::string& l) { return l.find("maximum iterations") != std::string::npos; }), w.lines.end());
        w.lines.push_back("nonlinear solver maximum iterations: " + std::to_string(n));
      };
      set(most);
      Run r2 = quasi_run(w, deck(s, w));
      VP_REQUIRE(r2.rc == 0, "the run converged with " << most << " iterations a step and fails with a limit of " << most << "\n" << r2.log.substr(0, 3000));
      VP_REQUIRE(r2.out.times.size() == rec, "number of records with another iteration limit");
      same_records(r.out, r2.out, rec, "another iteration limit");
      if (most > 1) {
        set(most - 1);
        Run r3 = quasi_run(w, deck(s, w));
        VP_REQUIRE(r3.rc != 0, "a limit of " << most - 1 << " iterations is reported to suffice, the run takes " << most << "\n" << r3.log.substr(0, 3000));
        for (fullsteps = 0; fullsteps < m.steps && (int)said[fullsteps].res.size() - 1 < most; ) ++fullsteps;
        VP_REQUIRE((int)r3.out.times.size() == fullsteps + 1, "records of a run that fails in step " << fullsteps + 1 << ": " << r3.out.times.size());
        same_records(r.out, r3.out, fullsteps + 1, "a run that fails later on");
      }
      s.label("iteration limit");
    }
  }
  if (s.chance(1, 3)) {   // the same with another cadence: the common records agree
    Model w = m;
    w.freq = (int)s.range(0, 4);
    Run r2 = quasi_run(w, deck(s, w));
    VP_REQUIRE((r2.rc == 0) == (r.rc == 0), "the output frequency decides whether the run converges");
    std::vector<size_t> want = {0};
    for (int k = 0; k < m.steps; ++k) if (w.freq && (k % w.freq == 0 || k == m.steps - 1) && k + 1 < (int)rec) want.push_back(k + 1);
    VP_REQUIRE(r2.out.times.size() == want.size(), "records at output frequency " << w.freq << ": " << r2.out.times.size() << ", expected " << want.size());
    for (size_t i = 0; i < want.size(); ++i) VP_REQUIRE(r2.out.times[i] == r.out.times[want[i]] && r2.out.nval[i] == r.out.nval[want[i]] && r2.out.evalv[i] == r.out.evalv[want[i]], "record " << want[i] << " depends on the output frequency");
    s.label("cadence");
  }
}
// loads that leave the range of the arithmetic: a step that cannot be evaluated is not a step that balances
void c16_beyond(Src& s) {
  Quasi q;
  Model m = gen_quasi(s, q);
  if (m.nn() > 45) throw Discard();
  if (std::find(q.fixed.begin(), q.fixed.end(), 0) == q.fixed.end()) throw Discard();   // nothing to balance
  bool neo = s.chance(1, 4);
  for (auto& x : m.mat) x.neo = x.neo && neo;
  m.steps = 1 + (int)s.below(2);
  double a = s.chance(1, 4) ? s.uniform(0.1, 3) * 1e150 : s.chance(1, 3) ? s.logu(1e280, 1e308) : s.logu(1e100, 1e308);
  const char* nans[] = {"sqrt(-1 - t * t)", "log(-1)", "(x - x) / (y - y)", "1 / (z - z)"};
  size_t bad = s.below(m.bc.size());
  bool nan = s.chance(1, 3);
  for (size_t i = 0; i < m.bc.size(); ++i) {
    auto& b = m.bc[i];
    if (i != bad && s.flip()) continue;
    double v = s.usym(a);
    b.text = num(v);
    b.f = [v](LD, LD, LD, LD) { return (LD)v; };
    if (i == bad && nan) { b.text = std::string("\"") + nans[s.below(4)] + "\""; b.f = [](LD, LD, LD, LD) { return (LD)NAN; }; }
  }
  m.lines = {"nonlinear solver relative tolerance: 1e-6", "nonlinear solver maximum iterations: " + std::to_string(s.size(1, 4))};
  m.fields = "displacement internal_force";
  std::string text = deck(s, m);
  s.note() << describe(m) << "\n" << text;
  Run r = quasi_run(m, text);
  size_t rec = r.have ? r.out.times.size() : 0;
  VP_REQUIRE(r.rc != 0 || (int)rec == m.steps + 1, "the run succeeded and left " << rec << " records of " << m.steps + 1);
  s.label(r.rc ? "refused" : "solved");
  s.label(nan ? "not a number" : a > 1e154 ? "squares overflow" : "large");
  s.nontrivial(r.rc != 0 || rec > 1);
  auto H = rec ? history(r.out) : std::vector<Hist>();
  for (size_t k = 1; k < rec; ++k) {
    auto u = vectors(H[k], "displacement", m.nn()), f = vectors(H[k], "internal_force", m.nn());
    LD sq = 0;
    for (int i = 0; i < m.nn(); ++i) for (int c = 0; c < 3; ++c) {
      VP_REQUIRE(std::isfinite((double)u[i][c]), "record " << k << " is given out as balanced: displacement " << (double)u[i][c] << " of node " << i << XS[c]);
      if (!q.fixed[3 * i + c]) sq += f[i][c] * f[i][c];
    }
    // the squares of all unconstrained forces have to be numbers for their sum to be judged
    VP_REQUIRE(std::isfinite((double)sq), "record " << k << " is given out as balanced: the sum of the squares of the forces on unconstrained degrees of freedom is " << (double)sq);
  }
}
// small loads: the direct solution of the linear system
void c16_linear(Src& s) {
  Quasi q;
  Model m = gen_quasi(s, q);
  if (m.nn() > 45) throw Discard();
  double to = s.logu(1e-7, 1e-5), by = to / q.amp;
  for (auto& x : m.mat) x.neo = x.neo && s.flip();
  m.steps = 1 + (int)s.below(2);
  m.lines = {"nonlinear solver relative tolerance: 1e-6"};
  q.tol = 1e-6;
  for (auto& b : m.bc) {
    std::string t = b.text;
    if (t[0] == '"') t = t.substr(1, t.size() - 2);
    b.text = "\"(" + t + ") * " + num(by) + "\"";
    // (a < b) ? c : d  is a value like any other
    auto f = b.f;
    b.f = [f, by](LD x, LD y, LD z, LD tt) { return f(x, y, z, tt) * by; };
  }
  m.fields = "displacement internal_force";
  std::string text = deck(s, m);
  s.note() << describe(m) << "\n" << text;
  Run r = quasi_run(m, text);
  VP_REQUIRE(r.have, "no readable output file\n" << r.log.substr(0, 3000));
  Balance bal = check_quasi(s, m, q, r, steps_said(r.log));
  if (r.out.times.size() < 2) {
    if (!(q.tol * bal.r0.at(0) < bal.floor)) VP_FAIL("no step was written\n" << r.log.substr(0, 3000));
    s.label("no load");
    return;
  }
  auto H = history(r.out);
  int N = m.nn(), n = 0;
  std::vector<int> row(3 * N, -1);
  for (int i = 0; i < 3 * N; ++i) if (!q.fixed[i]) row[i] = n++;
  std::vector<std::vector<LD>> A(n, std::vector<LD>(n, 0));
  std::vector<V3> u0 = vectors(H[1], "displacement", N), uf = u0;
  for (int i = 0; i < N; ++i) for (int c = 0; c < 3; ++c) if (!q.fixed[3 * i + c]) uf[i][c] = 0;
  std::vector<LD> b(n, 0);
  for (int e = 0; e < m.ne(); ++e) {
    auto K = hex_tangent(m.hex(e), m.mat[m.eb[e]]);
    for (int i = 0; i < 24; ++i) {
      int p = row[3 * m.el[e][i / 3] + i % 3];
      if (p < 0) continue;
      for (int j = 0; j < 24; ++j) {
        int g = m.el[e][j / 3], w = row[3 * g + j % 3];
        if (w < 0) b[p] -= K[i][j] * uf[g][j % 3]; else A[p][w] += K[i][j];
      }
    }
  }
  // Cholesky
  for (int i = 0; i < n; ++i) {
    for (int j = 0; j <= i; ++j) {
      LD x = A[i][j];
      for (int k = 0; k < j; ++k) x -= A[i][k] * A[j][k];
      if (i == j) { if (!(x > 0)) throw Discard(); A[i][i] = sqrtl(x); } else A[i][j] = x / A[j][j];
    }
  }
  auto solve = [&](std::vector<LD> y) {
    for (int i = 0; i < n; ++i) { for (int k = 0; k < i; ++k) y[i] -= A[i][k] * y[k]; y[i] /= A[i][i]; }
    for (int i = n - 1; i >= 0; --i) { for (int k = i + 1; k < n; ++k) y[i] -= A[k][i] * y[k]; y[i] /= A[i][i]; }
    return y;
  };
  auto x = solve(b);
  for (int i = 0; i < 3 * N; ++i) if (row[i] >= 0) uf[i / 3][i % 3] = x[row[i]];
  // how far the material law and the run may be from the linear solution: residuals carried through the system
  auto carried = [&](const std::vector<V3>& u) {
    Rec a; bool bad = false;
    internal(m, u, a, bad);
    if (bad) throw Discard();
    std::vector<LD> y(n);
    for (int i = 0; i < 3 * N; ++i) if (row[i] >= 0) y[row[i]] = a.f[i / 3][i % 3];
    LD w = 0;
    for (LD v : solve(y)) w = std::max(w, fabsl(v));
    return w;
  };
  LD um = 0, e1 = carried(uf), e2 = carried(u0), Xm = 0;
  for (auto& p : m.X) for (LD v : p) Xm = std::max(Xm, fabsl(v));
  for (auto& p : uf) for (LD v : p) um = std::max(um, fabsl(v));
  LD tol = 2 * (e1 + e2) + 1e-12L * um + 1e-15L * Xm, worst = 0;
  for (int i = 0; i < N; ++i) for (int c = 0; c < 3; ++c) {
    worst = std::max(worst, fabsl(u0[i][c] - uf[i][c]));
    VP_REQUIRE(fabsl(u0[i][c] - uf[i][c]) <= tol, "displacement " << XS[c] << " of node " << i << ": " << (double)u0[i][c] << ", the linear system gives " << (double)uf[i][c] << " (tolerance " << (double)tol << ")");
  }
  s.nontrivial(um > 0 && tol < 1e-2L * um && n > 0);
  if (um > 0) { s.maxi("tolerance, relative", (double)std::min((LD)1, tol / um)); s.label(tol < 1e-3L * um ? "tight" : "loose"); }
}

// ---------------------------------------------------------------- C24
std::function<void(nimble::NimbleApplication&, nimble::GenesisMesh&, nimble::DataManager&, HostDM&)> side_by_side;
std::exception_ptr thrown;
struct Both : nimble::IntegratorBase {
  nimble::DataManager& k;
  HostDM h;
  Both(nimble::NimbleApplication& a, nimble::GenesisMesh& m, nimble::DataManager& d) : nimble::IntegratorBase(a, m, d), k(d), h(a.GetParser(), m, "h.out.e") {}
  int Integrate() override {   // the application swallows what is thrown
    try { side_by_side(App(), Mesh(), k, h); } catch (...) { thrown = std::current_exception(); }
    return 0;
  }
};
struct BothApp : App {
  std::unique_ptr<nimble::IntegratorBase> CreateIntegrator(nimble::DataManager& d, nimble::GenesisMesh& mesh) override { return std::unique_ptr<nimble::IntegratorBase>(new Both(*this, mesh, d)); }
};
std::string both_fields(Src& s) {
  std::vector<std::string> f = {"lumped_mass", "displacement", "velocity", "acceleration", "internal_force", "external_force", "contact_force", "reference_coordinate", "volume", "stress", "deformation_gradient"};
  std::string r;
  for (int i : s.perm((int)f.size())) if (f[i] == "displacement" || s.chance(4, 5)) r += (r.empty() ? "" : " ") + f[i];
  return r;
}
void same_layout(const Exo& a, const Exo& b) {
  VP_REQUIRE(a.x == b.x && a.y == b.y && a.z == b.z && a.nid == b.nid && a.eid == b.eid && a.blocks.size() == b.blocks.size(), "the two files describe different meshes");
  auto n = a.nvars, m = b.nvars, e = a.evars, g = b.evars;
  std::sort(n.begin(), n.end()); std::sort(m.begin(), m.end()); std::sort(e.begin(), e.end()); std::sort(g.begin(), g.end());
  VP_REQUIRE(n == m, "the two files hold different nodal variables");
  VP_REQUIRE(e == g, "the two files hold different element variables");
  VP_REQUIRE(a.times == b.times, "the two files hold records of different times");
}
void c24_run(Src& s) {
  Opt o;
  o.maxsteps = 12;
  Model m = gen_model(s, o);
  m.fields = both_fields(s);
  std::string text = deck(s, m);
  s.note() << describe(m) << "\n" << text;
  Ref R = reference(m);
  if (R.bad) throw Discard();
  Run k = serial(s, m, text), h;
  unlink("h.out.e");
  h.rc = app<HostApp>({"in.txt"}, h.log);
  VP_REQUIRE(h.rc == 0, "the run on host data failed with status " << h.rc << "\n" << h.log.substr(0, 2000));
  h.have = exo_read("h.out.e", h.out);
  VP_REQUIRE(h.have, "no readable output file of the run on host data\n" << h.log.substr(0, 2000));
  same_layout(h.out, k.out);
  check_times(m, h.out);
  double a = printed_dt(k.log), b = printed_dt(h.log);
  VP_REQUIRE(near(a, b, 1e-9, 0), "stable time step: " << b << " on host data, " << a << " on portable data");
  auto H = history(h.out), K = history(k.out);
  Dev d, dk;
  for (size_t r = 0; r < H.size(); ++r) {
    try { compare_record(d, m, R, R.rec[r], H[r], r == 0); } catch (const Failure& f) { VP_FAIL("host data: " << f.msg); }
    try { compare_record(dk, m, R, R.rec[r], K[r], r == 0); } catch (const Failure& f) { VP_FAIL("portable data: " << f.msg); }
  }
  s.maxi("deviation/tolerance", (double)d.worst);
  tags(s, m);
  s.nontrivial(moves(R) && m.steps > 1);
}
// two requests for the files of one model
void c12_host(Src& s) {
  Opt o;
  o.maxsteps = 4;
  Model m = gen_model(s, o);
  std::vector<std::string> pool = {"lumped_mass", "volume", "stress", "deformation_gradient"}, ask[2];
  for (auto& f : nodal()) if (f.find("contact") == std::string::npos) pool.push_back(f);
  std::set<std::string> seen[2];
  for (int pass = 0; pass < 2; ++pass)
    for (int i = (int)s.range(1, 6); i > 0; --i) {
      std::string f = s.chance(1, 3) ? "ipt0" + std::to_string(s.range(1, 8)) + (s.flip() ? "_stress" : "_deformation_gradient") : pass && s.flip() ? s.pick(ask[0]) : s.pick(pool);
      if (seen[pass].insert(f).second) ask[pass].push_back(f);
    }
  Ref R = reference(m);
  if (R.bad) throw Discard();
  Dev d;
  std::vector<Hist> H[2];
  for (int pass = 0; pass < 2; ++pass) {
    m.fields = "";
    std::set<std::string> n, e;
    for (auto& f : ask[pass]) {
      m.fields += (m.fields.empty() ? "" : s.chance(1, 6) ? "   " : " ") + f;
      std::string b = f.substr(0, 3) == "ipt" ? f.substr(6) : f;
      if (b == "lumped_mass") n.insert(f);
      else if (b == "volume") e.insert(f);
      else if (b == "stress") for (auto c : S6) e.insert(f + c);
      else if (b == "deformation_gradient") for (auto c : F9) e.insert(f + c);
      else for (auto c : XS) n.insert(f + c);
    }
    std::string text = deck(s, m);
    s.note() << (pass ? "\nthen " : "") << describe(m) << "\n" << text;
    put_text("in.txt", text);
    unlink("m.g"); unlink("h.out.e");
    exo_write(to_exo(m), "m.g");
    Run h;
    h.rc = in_child([&] {
      std::string log;
      int rc = app<HostApp>({"in.txt"}, log);
      put_text("log.txt", log);
      if (rc) throw 1;
    });
    VP_REQUIRE(h.rc == 0, "the run on host data failed with status " << h.rc << " for the output fields '" << m.fields << "'");
    h.have = exo_read("h.out.e", h.out);
    VP_REQUIRE(h.have, "no readable output file");
    VP_REQUIRE(h.out.nvars.size() == n.size() && std::set<std::string>(h.out.nvars.begin(), h.out.nvars.end()) == n, "nodal variables in the file are not those requested ('" << m.fields << "'): " << h.out.nvars.size() << " for " << n.size());
    VP_REQUIRE(h.out.evars.size() == e.size() && std::set<std::string>(h.out.evars.begin(), h.out.evars.end()) == e, "element variables in the file are not those requested ('" << m.fields << "'): " << h.out.evars.size() << " for " << e.size());
    check_mesh(m, h.out);
    check_times(m, h.out);
    H[pass] = history(h.out);
    for (size_t k = 0; k < H[pass].size(); ++k) compare_record(d, m, R, R.rec[k], H[pass][k], k == 0);
  }
  for (size_t k = 0; k < H[0].size(); ++k)
    for (int el = 0; el < 2; ++el)
      for (auto& kv : el ? H[0][k].e : H[0][k].n) {
        auto& o2 = el ? H[1][k].e : H[1][k].n;
        auto it = o2.find(kv.first);
        if (it != o2.end()) VP_REQUIRE(it->second == kv.second, kv.first << " of record " << k << " depends on what else is requested");
      }
  s.maxi("deviation/tolerance", (double)d.worst);
  tags(s, m);
  for (auto& f : ask[0]) s.label(f.substr(0, 3) == "ipt" ? "ipt" : f);
  s.nontrivial(moves(R) && ask[0].size() > 1);
}
// the same states put into both
void c24_states(Src& s) {
  Opt o;
  o.maxsteps = 3;
  Model m = gen_model(s, o);
  m.fields = both_fields(s);
  if (m.fields.find("internal_force") == std::string::npos) m.fields += " internal_force";
  std::string text = deck(s, m);
  s.note() << describe(m) << "\n" << text;
  int N = m.nn(), ns = (int)s.size(1, 5);
  LD L = 0;
  for (auto& p : m.X) for (LD v : p) L = std::max(L, fabsl(v));
  struct State { std::vector<V3> u, v; LD fmax = 0, jmin = 1; double t, tp; };
  std::vector<State> st;
  for (int k = 0; k < ns; ++k) {
    State x;
    int kind = (int)s.below(4);
    for (int tries = 0; tries < 8; ++tries) {
      T3 A = t3zero();
      double shift[3];
      for (int i = 0; i < 3; ++i) A[i][i] = kind == 0 ? 1 : s.uniform(0.6, 1.7);
      for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (i != j && kind) A[i][j] = s.usym(kind == 1 ? 0.02 : 0.4);
      if (kind >= 2) {
        int a = (int)s.below(3), b = (a + 1) % 3;
        LD th = s.usym(3.14159);
        T3 Q = t3zero();
        for (int i = 0; i < 3; ++i) Q[i][i] = 1;
        Q[a][a] = Q[b][b] = cosl(th); Q[a][b] = -sinl(th); Q[b][a] = sinl(th);
        A = mul(Q, A);
      }
      for (double& c : shift) c = s.chance(1, 3) ? s.usym(2) * (double)m.hmax : 0;
      double jit = kind == 0 && s.flip() ? s.logu(1e-12, 0.1) : s.uniform(0, 0.15);
      if (tries > 4) jit *= 0.1;
      x.u.assign(N, V3{0, 0, 0}); x.v = x.u;
      V3 c = m.X[0];
      for (int n = 0; n < N; ++n) for (int i = 0; i < 3; ++i) {
        LD y = shift[i] + jit * s.usym(1) * m.hmin;
        for (int j = 0; j < 3; ++j) y += (A[i][j] - (i == j)) * (m.X[n][j] - c[j]);
        x.u[n][i] = (double)y;
        x.v[n][i] = s.usym(1) * 0.05 * (double)m.cmax;
      }
      x.fmax = 0; x.jmin = 10;
      Rec r; bool bad = false;
      internal(m, x.u, r, bad);
      for (auto& e : r.F) for (auto& F : e) { x.fmax = std::max(x.fmax, nrm(F)); x.jmin = std::min(x.jmin, det(F)); }
      if (x.jmin > 0.1L && x.fmax < 12) break;
      x.jmin = 0;
    }
    if (!(x.jmin > 0.1L)) continue;
    double T = m.tf - m.t0;
    x.tp = m.t0 + s.unit() * T;
    x.t = s.chance(1, 4) ? x.tp : x.tp + s.unit() * T;
    st.push_back(x);
  }
  if (st.empty()) throw Discard();
  auto bits = [](double a, double b) { return memcmp(&a, &b, 8) == 0 || (a == 0 && b == 0); };
  side_by_side = [&](nimble::NimbleApplication&, nimble::GenesisMesh&, nimble::DataManager& kd, HostDM& hd) {
    nimble::DataManager* dm[2] = {&kd, &hd};
    nimble::Viewify<2> u[2], v[2], f[2];
    for (int i = 0; i < 2; ++i) {
      auto& md = *dm[i]->GetModelData();
      u[i] = md.GetVectorNodeData("displacement"); v[i] = md.GetVectorNodeData("velocity"); f[i] = md.GetVectorNodeData("internal_force");
      md.ComputeLumpedMass(*dm[i]);
      md.ApplyInitialConditions(*dm[i]);
    }
    auto same = [&](const char* when) {
      for (int n = 0; n < N; ++n) for (int c = 0; c < 3; ++c) {
        VP_REQUIRE(bits(v[0](n, c), v[1](n, c)), "velocity " << XS[c] << " of node " << n << " after " << when << ": " << v[0](n, c) << " on portable data, " << v[1](n, c) << " on host data");
        VP_REQUIRE(bits(u[0](n, c), u[1](n, c)), "displacement " << XS[c] << " of node " << n << " after " << when << ": " << u[0](n, c) << " on portable data, " << u[1](n, c) << " on host data");
      }
    };
    same("the initial conditions");
    double T0 = kd.GetModelData()->GetCriticalTimeStep(), T1 = hd.GetModelData()->GetCriticalTimeStep();
    VP_REQUIRE(near(T0, T1, 1e-12, 0), "critical time step " << T0 << " on portable data, " << T1 << " on host data");
    for (auto& x : st) {
      for (int i = 0; i < 2; ++i) {
        auto& md = *dm[i]->GetModelData();
        for (int n = 0; n < N; ++n) for (int c = 0; c < 3; ++c) { u[i](n, c) = (double)x.u[n][c]; v[i](n, c) = (double)x.v[n][c]; }
        md.ApplyKinematicConditions(*dm[i], x.t, x.tp);
      }
      same("the kinematic conditions");
      for (int i = 0; i < 2; ++i) {
        auto& md = *dm[i]->GetModelData();
        md.UpdateWithNewVelocity(*dm[i], 0.1);
        md.UpdateWithNewDisplacement(*dm[i], 0.1);
        md.ComputeExternalForce(*dm[i], x.tp, x.t, true);
        md.ComputeInternalForce(*dm[i], x.tp, x.t, true, u[i], f[i]);
        dm[i]->WriteOutput(x.t);
        md.UpdateStates(*dm[i]);
      }
      same("the forces");
    }
  };
  put_text("in.txt", text);
  unlink("m.g"); unlink("r.out.e"); unlink("h.out.e");
  exo_write(to_exo(m), "m.g");
  std::string log;
  thrown = nullptr;
  int rc = app<BothApp>({"in.txt"}, log);
  side_by_side = nullptr;
  if (thrown) std::rethrow_exception(thrown);
  VP_REQUIRE(rc == 0, "status " << rc << "\n" << log.substr(0, 2000));
  Exo ko, ho;
  VP_REQUIRE(exo_read("r.out.e", ko), "no output of the portable data");
  VP_REQUIRE(exo_read("h.out.e", ho), "no output of the host data");
  same_layout(ho, ko);
  VP_REQUIRE(ko.times.size() == st.size(), ko.times.size() << " records of " << st.size());
  auto H = history(ho), K = history(ko);
  LD Km = 0, far = 1 + L / m.hmin, hr = m.hmax / m.hmin, worst = 0;
  for (auto& x : m.mat) Km = std::max(Km, x.K + 4 * x.G / 3);
  for (size_t r = 0; r < st.size(); ++r) {
    auto& x = st[r];
    Rec w; bool bad = false;
    internal(m, x.u, w, bad);
    LD smax = 0, um = 0;
    for (auto& e : w.sig) for (auto& g : e) smax = std::max(smax, nrm(g));
    for (auto& p : x.u) for (LD c : p) um = std::max(um, fabsl(c));
    LD place = far + um / m.hmin, tF = 4e-15L * place * hr * x.fmax, amp = 1 + x.fmax * x.fmax / x.jmin;
    LD tS = amp * (1e-15L * Km * place * hr * x.fmax) + 1e-13L * smax, h = m.hmax * x.fmax;
    for (int pass = 0; pass < 2; ++pass) {
      const Hist& g = pass ? H[r] : K[r];
      std::string who = pass ? " on host data" : " on portable data";
      auto one = [&](double got, LD want, LD tol, const std::string& what) {
        VP_REQUIRE(fabsl(got - want) <= tol, what << who << " in state " << r << ": " << got << ", expected " << (double)want << " (tolerance " << (double)tol << ")");
        if (tol > 0) worst = std::max(worst, fabsl(got - want) / tol);
      };
      for (auto& kv : g.n) {
        const std::string& k = kv.first;
        if (k.compare(0, 15, "internal_force_") == 0) for (int n = 0; n < N; ++n) one(kv.second[n], w.f[n][k.back() - 'x'], 32 * tS * h * h, k + " of node " + std::to_string(n));
        else if (k.compare(0, 13, "displacement_") == 0) for (int n = 0; n < N; ++n) one(kv.second[n], x.u[n][k.back() - 'x'], 0, k + " of node " + std::to_string(n));
        else if (k == "lumped_mass") for (int n = 0; n < N; ++n) VP_REQUIRE(near(H[r].n.at(k)[n], K[r].n.at(k)[n], 1e-13, 0), "lumped mass of node " << n << ": " << K[r].n.at(k)[n] << " on portable data, " << H[r].n.at(k)[n] << " on host data");
        else for (int n = 0; n < N; ++n) VP_REQUIRE(bits(H[r].n.at(k)[n], K[r].n.at(k)[n]), k << " of node " << n << " in state " << r << ": " << K[r].n.at(k)[n] << " on portable data, " << H[r].n.at(k)[n] << " on host data");
      }
      for (auto& kv : g.e) {
        const std::string& k = kv.first;
        for (int e = 0; e < m.ne(); ++e) {
          std::string what = k + " of element " + std::to_string(e);
          if (k == "volume") { one(kv.second[e], w.vol[e], h * h * h * tF * 8, what); continue; }
          std::string base = k.substr(0, k.size() - 3), comp = k.substr(k.size() - 3);
          int a = comp[1] - 'x', b = comp[2] - 'x';
          one(kv.second[e], average(m, e, x.u, [&](int q) { return base == "stress" ? w.sig[e][q][a][b] : w.F[e][q][a][b]; }), base == "stress" ? tS * hr * hr * hr : tF * hr * hr * hr * 8, what);
        }
      }
    }
  }
  s.maxi("deviation/tolerance", (double)worst);
  tags(s, m);
  s.label("states=" + std::to_string(st.size()));
  LD f = 0;
  for (auto& x : st) f = std::max(f, x.fmax);
  s.label(f > 2.5L ? "large strain" : f > 1.8L ? "moderate strain" : "small strain");
  s.nontrivial(f > 1.8L);
}

// ---------------------------------------------------------------- C03
void c03_rows(Src& s) {
  int dim = s.chance(1, 4) ? 2 : 3, n = (int)s.size(1, 16);
  bool quasi = s.chance(2, 3);
  double L = s.logu(1e-3, 1e3), T = s.logu(1e-6, 1e3), amp = s.logu(1e-6, 1e3);
  std::map<int, std::string> nn, sn;
  std::map<int, std::vector<int>> ns, ss;
  std::set<std::string> used;
  int sets = (int)s.size(1, 4);
  auto ids = gen_ids(s, sets + 2, 50);
  std::vector<std::string> names;
  for (int k = 0; k < sets; ++k) {
    names.push_back(gen_name(s, used, "ns"));
    nn[ids[k]] = names[k];
    auto p = s.perm(n);
    p.resize(s.below(n + 1));
    ns[ids[k]] = p;
  }
  std::string side = gen_name(s, used, "ss"), none = gen_name(s, used, "no");
  int sides = (int)s.below(2);
  if (sides) { sn[ids[s.flip() ? sets : 0]] = side; ss[sn.begin()->first] = {11, 12}; }   // side set ids are not node set ids
  struct C { int kind, set, coord; Fn f; };
  std::vector<C> cs;
  std::vector<std::string> text;
  static const char* kinds[4] = {"initial_velocity", "prescribed_velocity", "prescribed_displacement", "prescribed_traction"};
  int nc = (int)s.size(1, 7);
  bool mixed = false;
  for (int k = 0; k < nc; ++k) {
    BC b;
    C c;
    c.kind = (int)s.range(0, 11);
    c.kind = c.kind < 3 ? 0 : c.kind < 7 ? 1 : c.kind < 11 ? 2 : 3;
    c.coord = (int)s.below(dim);
    c.set = s.chance(1, 10) ? -1 : (int)s.below(sets);
    gen_value(s, amp, L, T, c.kind != 0, b);
    c.f = b.f;
    std::string nm = c.kind == 3 ? (sides ? side : none) : c.set < 0 ? none : names[c.set];
    std::string line = std::string(kinds[c.kind]) + std::string(1 + s.below(3), ' ') + nm + std::string(1 + s.below(3), ' ') + (s.flip() ? "xyz" : "XYZ")[c.coord] + " " + b.text;
    text.push_back(line);
    s.note() << line << "\n";
    if (c.kind < 3 && c.set >= 0) cs.push_back(c);
    if (c.kind == 3 && sides) mixed = true;
  }
  s.note() << "dim " << dim << ", " << n << " nodes, " << (quasi ? "quasistatic" : "explicit") << "\n";
  for (auto& k : ns) { s.note() << nn[k.first] << ":"; for (int v : k.second) s.note() << " " << v; s.note() << "\n"; }
  if (s.chance(1, 12)) {
    static const char* bad[] = {"prescribed_speed", "initial_velocities", "undefined", ""};
    std::string k = kinds[s.below(3)], x(1, "xyz"[s.below(dim)]), q = "1.5", nm = names[0];
    int how = (int)s.below(5);
    if (how == 0) { k = bad[s.below(3)]; }
    else if (how == 1) { static const char* w[] = {"w", "xy", "1", "-x", "xx"}; x = dim == 2 && s.flip() ? "z" : w[s.below(5)]; }
    else if (how == 2) { static const char* w[] = {"\"1 + t", "1 + t\"", "\"1\" + \"2\"", "\""}; q = w[s.below(4)]; }
    else if (how == 3) { static const char* w[] = {"1.5x", "one", "1,5", "--1"}; q = w[s.below(4)]; }
    else { static const char* w[] = {"\"1 +\"", "\"(t\"", "\"2 q\"", "\"\""}; q = w[s.below(4)]; }
    std::string line = k + " " + nm + " " + x + " " + q;
    auto tx = text;
    tx.insert(tx.begin() + s.below(tx.size() + 1), line);
    s.note() << "rejected: " << line << "\n";
    bool thrown = false;
    try { nimble::BoundaryConditionManager b; b.Initialize(nn, ns, sn, ss, tx, dim, quasi ? "quasistatic" : "explicit"); } catch (const std::exception&) { thrown = true; }
    VP_REQUIRE(thrown, "accepted in " << dim << " dimensions: " << line);
    s.label("rejected");
  }
  nimble::BoundaryConditionManager bc;
  bc.Initialize(nn, ns, sn, ss, text, dim, quasi ? "quasistatic" : "explicit");
  bool rowmajor = s.flip();
  int noff = (int)s.below(3);
  auto fill = [&](double a) { std::vector<double> v(n * dim); for (double& x : v) x = s.usym(a); return v; };
  auto at = [&](int i, int c) { return rowmajor ? i * dim + c : c * n + i; };
  std::array<int, 2> len = {{n, dim}}, stride = rowmajor ? std::array<int, 2>{{dim, 1}} : std::array<int, 2>{{1, n}};
  auto view = [&](std::vector<double>& v) { return nimble::Viewify<2>(v.data(), len, stride); };
  std::vector<double> X = fill(L), u = fill(amp), v = fill(amp), X0 = X;
  std::vector<std::vector<double>> off;
  for (int k = 0; k < noff; ++k) off.push_back(fill(amp));
  std::vector<nimble::Viewify<2>> ov;
  for (auto& o : off) ov.push_back(view(o));
  std::vector<LD> wu(u.begin(), u.end()), wv(v.begin(), v.end());
  std::vector<std::vector<LD>> wo;
  for (auto& o : off) wo.push_back(std::vector<LD>(o.begin(), o.end()));
  std::vector<char> tu(n * dim, 0), tv(n * dim, 0);   // touched
  auto tt = std::vector<char>(n * dim, 0);
  LD um = amp, vm = amp, soft = 0;
  auto pos = [&](int i, int c) { return c < dim ? (LD)X[at(i, c)] : (LD)0; };
  auto check = [&](const char* when) {
    for (int i = 0; i < n; ++i) for (int c = 0; c < dim; ++c) {
      int k = at(i, c);
      auto one = [&](double got, LD want, bool touched, LD scale, const char* what) {
        LD tol = touched ? 1e-12L * scale : 0;
        VP_REQUIRE(fabsl(got - want) <= tol, what << " of node " << i << ", component " << c << " after " << when << ": " << got << ", expected " << (double)want << (touched ? "" : " (no condition acts on it)"));
      };
      one(u[k], wu[k], tu[k], um, "displacement");
      one(v[k], wv[k], tv[k], vm, "velocity");
      for (int q = 0; q < noff; ++q) one(off[q][k], wo[q][k], tt[k], vm, "sampled velocity");
    }
    VP_REQUIRE(memcmp(X.data(), X0.data(), X.size() * 8) == 0, "reference coordinates after " << when);
  };
  auto initial = [&] {
    if (noff) bc.ApplyInitialConditions(view(X), view(v), ov); else bc.ApplyInitialConditions(view(X), view(v));
    for (auto& c : cs) if (c.kind == 0) for (int i : ns[ids[c.set]]) {
      int k = at(i, c.coord);
      wv[k] = c.f(pos(i, 0), pos(i, 1), pos(i, 2), 0); tv[k] = tt[k] = 1;
      for (auto& o : wo) o[k] = wv[k];
      vm = std::max(vm, fabsl(wv[k]));
    }
    check("the initial conditions");
  };
  auto kinematic = [&](double t, double tp) {
    if (noff) bc.ApplyKinematicBC(t, tp, view(X), view(u), view(v), ov); else bc.ApplyKinematicBC(t, tp, view(X), view(u), view(v));
    LD dt = (LD)(t - tp);
    auto start = wu;    // where the step started: the last of several conditions on one degree of freedom counts
    for (auto& c : cs) if (c.kind) for (int i : ns[ids[c.set]]) {
      int k = at(i, c.coord);
      LD w = c.f(pos(i, 0), pos(i, 1), pos(i, 2), t);
      if (c.kind == 1) {
        wv[k] = w; tv[k] = tt[k] = 1;
        for (auto& o : wo) o[k] = w;
        if (quasi) { wu[k] = start[k] + w * dt; tu[k] = 1; um = std::max(um, fabsl(w * dt)); }
      } else if (dt > 0) {
        wv[k] = (w - start[k]) / dt; tv[k] = 1;
        if (quasi) { wu[k] = w; tu[k] = 1; }
        um = std::max(um, fabsl(w)); vm = std::max(vm, (fabsl(w) + um) / dt);
      }
      um = std::max(um, fabsl(wu[k])); vm = std::max(vm, fabsl(wv[k]));
    }
    check("the kinematic conditions");
  };
  (void)soft;
  if (s.flip()) initial();
  int calls = (int)s.size(0, 3);
  double t = s.usym(T);
  for (int k = 0; k < calls; ++k) {
    double tp = t;
    if (!s.chance(1, 4)) t += s.uniform(0.1, 1) * T;
    kinematic(t, tp);
    if (s.chance(1, 3)) initial();
  }
  // rows, columns and right-hand side of the same degrees of freedom
  int sys = s.chance(1, 4) ? (int)s.range(1, n) : n;
  std::vector<int> id = s.perm(n);
  for (int& k : id) k %= sys;
  int N = sys * dim;
  std::set<int> fixed;
  for (auto& c : cs) if (c.kind) for (int i : ns[ids[c.set]]) fixed.insert(id[i] * dim + c.coord);
  std::vector<double> rhs(N), r0;
  for (double& x : rhs) x = s.usym(amp) + amp * 2;
  r0 = rhs;
  bc.ModifyRHSForKinematicBC(id.data(), rhs.data());
  for (int k = 0; k < N; ++k) VP_REQUIRE(rhs[k] == (fixed.count(k) ? 0 : r0[k]), "right-hand side entry " << k << " is " << rhs[k] << (fixed.count(k) ? " although it is fixed" : " although it is free, it was ") << r0[k]);
  double diag = s.logu(1e-3, 1e9);
  std::vector<int> I, J;
  bool full = s.chance(1, 4);
  for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) if (i == j || full || s.chance(1, 3)) { I.push_back(i); J.push_back(j); }
  auto matrix = [&](auto& A, const char* what) {
    A.AllocateNonzeros(I, J);
    std::vector<double> a(I.size());
    for (size_t k = 0; k < I.size(); ++k) A(I[k], J[k]) = a[k] = s.usym(1) + 3;
    bc.ModifyTangentStiffnessMatrixForKinematicBC(N, id.data(), diag, A);
    for (size_t k = 0; k < I.size(); ++k) {
      double w = fixed.count(I[k]) || fixed.count(J[k]) ? (I[k] == J[k] ? diag : 0) : a[k];
      VP_REQUIRE(A(I[k], J[k]) == w, what << " entry " << I[k] << ", " << J[k] << " is " << A(I[k], J[k]) << ", expected " << w << " (row " << (fixed.count(I[k]) ? "fixed" : "free") << ", column " << (fixed.count(J[k]) ? "fixed" : "free") << ")");
    }
  };
  nimble::CRSMatrixContainer crs;
  nimble::MatrixContainer dense;
  matrix(crs, "sparse");
  matrix(dense, "dense");
  s.label(quasi ? "quasistatic" : "explicit");
  s.label("dim=" + std::to_string(dim));
  if (mixed) s.label("with traction");
  if (sys < n) s.label("shared ids");
  s.nontrivial(!fixed.empty() && (int)fixed.size() < N && calls > 0);
}

// ---------------------------------------------------------------- C08
void c08_blocks(Src& s) {
  Opt o;
  o.maxcells = 2;
  o.bcs = false;
  Model m = gen_model(s, o);
  int N = m.nn();
  s.note() << describe(m) << "\n";
  unlink("m.g");
  exo_write(to_exo(m), "m.g");
  nimble::GenesisMesh mesh;
  mesh.ReadFile("m.g");
  // where the nodes are, and which row each belongs to
  double amp = s.chance(1, 3) ? 0 : s.logu(1e-6, 0.1);
  std::vector<double> X(3 * N), u(3 * N);
  std::vector<V3> U(N);
  for (int i = 0; i < N; ++i) for (int c = 0; c < 3; ++c) { X[3 * i + c] = (double)m.X[i][c]; u[3 * i + c] = (double)(amp * s.usym(1) * m.hmin); U[i][c] = u[3 * i + c]; }
  LD L = 0;
  for (auto& p : m.X) for (LD v : p) L = std::max(L, fabsl(v));
  for (int e = 0; e < m.ne(); ++e) for (int q = 0; q < 8; ++q) if (!(det(jac(m.hex(e, &U), gauss(q))) > 0.01L * m.hmin * m.hmin * m.hmin)) throw Discard();
  int sys = s.chance(1, 5) ? (int)s.range(1, N) : N;
  std::vector<int> id = s.perm(N);
  for (int& k : id) k %= sys;
  std::vector<int> I, J;
  nimble::DetermineTangentMatrixNonzeroStructure(mesh, id, I, J);
  std::set<std::pair<int, int>> want, got;
  for (auto& e : m.el) for (int a : e) for (int b : e) for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) want.insert({3 * id[a] + i, 3 * id[b] + j});
  VP_REQUIRE(I.size() == J.size(), "structure: " << I.size() << " rows, " << J.size() << " columns");
  for (size_t k = 0; k < I.size(); ++k) {
    VP_REQUIRE(want.count({I[k], J[k]}), "structure: entry " << I[k] << ", " << J[k] << " belongs to no element");
    VP_REQUIRE(k == 0 || I[k - 1] < I[k] || (I[k - 1] == I[k] && J[k - 1] < J[k]), "structure: entries out of order");
    got.insert({I[k], J[k]});
  }
  VP_REQUIRE(got.size() == want.size(), "structure: " << got.size() << " entries, the elements couple " << want.size());
  int R = 3 * sys;
  std::vector<std::vector<LD>> A(R, std::vector<LD>(R, 0)), S = A;
  for (int e = 0; e < m.ne(); ++e) {
    auto K = hex_tangent(m.hex(e, &U), m.mat[m.eb[e]]);
    LD top = 0;
    for (auto& r : K) for (LD v : r) top = std::max(top, fabsl(v));
    for (int i = 0; i < 24; ++i) for (int j = 0; j < 24; ++j) {
      int p = 3 * id[m.el[e][i / 3]] + i % 3, q = 3 * id[m.el[e][j / 3]] + j % 3;
      A[p][q] += K[i][j]; S[p][q] += top;
    }
  }
  LD hr = m.hmax / m.hmin, eps = 1e-14L * (1 + L / m.hmin) * hr * hr, worst = 0;
  auto fill = [&](auto& M, const char* what) {
    M.AllocateNonzeros(I, J);
    double base = s.flip() ? 0 : 1;
    if (s.flip()) M.SetAllValues(7); // what is there is set anew
    M.SetAllValues(base);
    nimble::MaterialFactory f;
    for (int b : s.perm((int)m.bid.size())) {
      nimble::Block blk;
      auto& x = m.mat[b];
      blk.Initialize(std::string(x.neo ? "neohookean" : "elastic") + " density " + num((double)x.rho) + " bulk_modulus " + num((double)x.K) + " shear_modulus " + num((double)x.G), f);
      blk.ComputeTangentStiffnessMatrix(R, X.data(), u.data(), mesh.GetNumElementsInBlock(m.bid[b]), mesh.GetConnectivity(m.bid[b]), id.data(), M);
    }
    for (auto& k : want) {
      LD a = A[k.first][k.second] + base, tol = eps * (S[k.first][k.second] + base);
      double g = M(k.first, k.second);
      VP_REQUIRE(fabsl(g - a) <= tol, what << " matrix entry " << k.first << ", " << k.second << ": " << g << ", expected " << (double)a << " (tolerance " << (double)tol << ")");
      worst = std::max(worst, fabsl(g - a) / tol);
    }
  };
  nimble::CRSMatrixContainer crs;
  nimble::MatrixContainer dense;
  fill(crs, "sparse");
  if (R <= 300) fill(dense, "dense");
  s.maxi("deviation/tolerance", (double)worst);
  s.label("blocks=" + std::to_string(m.bid.size()));
  s.label(sys < N ? "shared rows" : "own rows");
  s.nontrivial(m.ne() > 1);
}
// ---------------------------------------------------------------- C30
// the same input again, in memory that held something else, after something else
void same_bits(const Exo& a, const Exo& b, const std::string& what) {
  VP_REQUIRE(a.times == b.times && a.nvars == b.nvars && a.evars == b.evars && a.gvars == b.gvars, what << ": records or variables differ");
  auto eq = [](const std::vector<double>& x, const std::vector<double>& y) { return x.size() == y.size() && (x.empty() || !memcmp(x.data(), y.data(), 8 * x.size())); };
  for (size_t k = 0; k < a.times.size(); ++k) {
    for (size_t v = 0; v < a.nvars.size(); ++v) VP_REQUIRE(eq(a.nval[k][v], b.nval[k][v]), what << ": " << a.nvars[v] << " of record " << k << " differs");
    for (size_t v = 0; v < a.evars.size(); ++v) {
      VP_REQUIRE(a.evalv[k][v].size() == b.evalv[k][v].size(), what << ": blocks with " << a.evars[v]);
      for (auto& kv : a.evalv[k][v]) { auto it = b.evalv[k][v].find(kv.first); VP_REQUIRE(it != b.evalv[k][v].end() && eq(kv.second, it->second), what << ": " << a.evars[v] << " of record " << k << " differs"); }
    }
  }
}
void c30_again(Src& s) {
  int kind = (int)s.below(4);       // portable, host, quasistatic, contact
  Quasi q;
  Model m, other;
  Opt o;
  o.maxsteps = 8;
  if (kind == 3) { o.contact = true; o.minbodies = o.maxbodies = 2; o.maxcells = 2; }
  if (kind == 2) { m = gen_quasi(s, q); m.fields = host_fields(s); }
  else { m = gen_model(s, o); m.fields = kind == 0 ? all_fields(s, true) : kind == 1 ? both_fields(s) : "displacement velocity acceleration internal_force contact_force lumped_mass"; }
  bool between = s.flip();
  if (between) { Opt o2; o2.maxsteps = 3; other = gen_model(s, o2); }
  search_mode = kind == 3 ? (int)s.below(3) : -1;
  struct Off { ~Off() { search_mode = -1; mallopt(M_PERTURB, 0); } } off;
  std::string text = deck(s, m), text2 = between ? deck(s, other) : "";
  std::vector<std::string> op;
  if (kind != 2 && s.chance(1, 4)) op.push_back("--use_tpetra");
  op.push_back("in.txt");
  s.note() << describe(m) << "\n" << text;
  auto once = [&](int fill) {
    Run r;
    mallopt(M_PERTURB, fill);
    if (kind == 2) return quasi_run(m, text);
    put_text("in.txt", text);
    unlink("m.g"); unlink("r.out.e"); unlink("h.out.e");
    exo_write(to_exo(m), "m.g");
    r.rc = kind == 1 ? app<HostApp>(op, r.log) : app(op, r.log);
    r.have = exo_read(kind == 1 ? "h.out.e" : "r.out.e", r.out);
    return r;
  };
  int f1 = (int)s.range(1, 255), f2 = (int)s.range(1, 255);
  Run a = once(f1);
  if (between) { int keep = search_mode; search_mode = -1; serial(s, other, text2); search_mode = keep; }
  Run b = once(f2);
  VP_REQUIRE(a.rc == b.rc && a.have == b.have, "the same input ends with status " << a.rc << " and, run again, " << b.rc);
  VP_REQUIRE(kind == 2 || (a.rc == 0 && a.have), "the run failed with status " << a.rc);
  if (a.have) same_bits(a.out, b.out, "the same input again");
  s.label(kind == 0 ? "portable" : kind == 1 ? "host" : kind == 2 ? "quasistatic" : "contact");
  s.nontrivial(a.have && a.out.times.size() > 1 && f1 != f2);
}
}  // namespace
int main(int argc, char** argv) {
  std::vector<Check> c = {
    {"C16", "run-quasistatic", c16_run, 2500, 40000, "quasistatic runs: every record balances on the unconstrained degrees of freedom to the requested tolerance and holds the prescribed values, all fields belong to its displacement, the iteration limit decides, the cadence does not; non-trivial: a moderate load whose first residual is far above rounding", {}},
    {"C16", "run-beyond", c16_beyond, 6000, 100000, "quasistatic runs with values that overflow or are not numbers: a step is given out as balanced only if it is; non-trivial: refused, or a step was written", {}},
    {"C31", "run-report-quasistatic", c31_quasi, 2500, 40000, "what a quasistatic run prints against its model, status and records: size of the matrix, steps, times, tolerances, residuals, iterations, completion or failure; non-trivial: a load far above rounding in several steps", {}},
    {"C16", "run-linear", c16_linear, 2500, 40000, "small loads against the direct solution of the assembled linear system; non-trivial: the tolerance is below 1% of the displacement", {}},
    {"C03", "conditions-rows", c03_rows, 150000, 2000000, "condition lists applied directly to fields, matrices and right-hand sides in 2D and 3D, both schemes: exactly the named degrees of freedom; non-trivial: some but not all are fixed and the conditions were applied", {}},
    {"C08", "block-assembly", c08_blocks, 25000, 400000, "blocks of whole meshes assembled into sparse and dense matrices in any row numbering: structure and every entry; non-trivial: several elements", {}},
    {"C30", "run-again", c30_again, 4000, 60000, "portable, host, quasistatic and contact runs, each twice with fresh memory filled differently and sometimes another run in between: the same bits; non-trivial: steps were taken and the fills differ", {}},
    {"C12", "run-host-fields", c12_host, 5000, 80000, "two runs of a model on host data with different requests: variable names, mesh, times, all values against an independent simulation; non-trivial: the model moves and several fields are requested", {}},
    {"C24", "run-host-data", c24_run, 2500, 40000, "an explicit run on host data against the run on portable data and the reference history; non-trivial: it moves for several steps", {}},
    {"C24", "states-side-by-side", c24_states, 4000, 60000, "random velocities and large deformations put into both: kinematic conditions, forces, element data and files; non-trivial: the deformation gradient exceeds 1.8", {}},
  };
  return vp_main(argc, argv, c, run_hooks());
}
