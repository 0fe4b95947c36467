// random models, their decks and mesh files, and an independent long-double explicit simulation of them
#pragma once
#include <algorithm>
#include <climits>
#include <fstream>
#include <functional>
#include <iostream>
#include <memory>
#include "exo.h"
#include "fe.h"
namespace sim {
using vp::Src;
using vp::Discard;
typedef std::function<LD(LD, LD, LD, LD)> Fn;   // x, y, z, t

struct BC {
  int kind;        // 0 initial_velocity, 1 prescribed_velocity, 2 prescribed_displacement
  int set, coord;  // index into the model's sets
  std::string text;
  Fn f;
};
struct Set { int id; std::string name; std::vector<int> nodes; };
struct Model {
  std::vector<V3> X;                     // coordinates, exactly representable in double
  std::vector<std::array<int, 8>> el;
  std::vector<int> eb;                   // element -> block index; elements are stored block by block
  std::vector<int> bid;                  // block ids, in file order
  std::vector<Mat> mat;                  // per block
  std::vector<Set> sets;
  std::vector<BC> bc;
  std::vector<int> nid, eid;             // 1-based global ids, or empty
  std::vector<int> body;                 // node -> body
  double t0 = 0, tf = 1;
  int steps = 1, freq = 1;
  std::string fields = "displacement", scheme = "explicit";
  std::vector<std::string> lines;        // further deck lines
  LD hmin = 1, hmax = 1, cmax = 1;
  bool named_blocks = false;
  bool aux_ids = false;
  bool plain = false;                    // deck lines with single blanks only
  std::vector<int> prim, sec;            // contact: block indices, and the penalty (0: no contact)
  double penalty = 0;
  int nn() const { return (int)X.size(); }
  int ne() const { return (int)el.size(); }
  Hex hex(int e, const std::vector<V3>* u = nullptr) const {
    Hex h;
    for (int a = 0; a < 8; ++a) { h[a] = X[el[e][a]]; if (u) h[a] = vadd(h[a], (*u)[el[e][a]]); }
    return h;
  }
};
inline const std::vector<std::array<int, 8>>& hexperms() {  // the 24 rotations of the reference cube
  static std::vector<std::array<int, 8>> v;
  if (v.empty()) {
    int p[3] = {0, 1, 2};
    std::sort(p, p + 3);
    do
      for (int sg = 0; sg < 8; ++sg) {
        int inv = 0;
        for (int a = 0; a < 3; ++a) for (int b = 0; b < a; ++b) inv += p[b] > p[a];
        int d = (inv % 2 ? -1 : 1) * ((sg & 1) ? -1 : 1) * ((sg & 2) ? -1 : 1) * ((sg & 4) ? -1 : 1);
        if (d < 0) continue;
        std::array<int, 8> q;
        for (int n = 0; n < 8; ++n) {
          int c[3];
          for (int k = 0; k < 3; ++k) c[k] = HS[n][p[k]] * ((sg >> k & 1) ? -1 : 1);
          for (int m = 0; m < 8; ++m) if (HS[m][0] == c[0] && HS[m][1] == c[1] && HS[m][2] == c[2]) q[n] = m;
        }
        v.push_back(q);
      }
    while (std::next_permutation(p, p + 3));
  }
  return v;
}
inline std::string num(double v) { char b[40]; snprintf(b, sizeof b, "%.17g", v); return b; }
// a condition value: a number, or an expression of position and time, of magnitude about amp
inline void gen_value(Src& s, double amp, double L, double T, bool allow_t, BC& b, bool spatial = true) {
  if (s.chance(2, 5) || (!spatial && !allow_t)) {
    double c = s.chance(1, 4) ? 0.0 : s.usym(amp);
    b.text = num(c);
    b.f = [c](LD, LD, LD, LD) { return (LD)c; };
    return;
  }
  double c0 = s.usym(amp), c1 = s.usym(amp / L), c2 = s.usym(amp / L), c3 = s.usym(amp), w = (double)s.range(1, 6) / (T > 0 ? T : 1), c4 = s.usym(amp / (T > 0 ? T : 1));
  auto P = [](double v) { return v < 0 ? "(" + num(v) + ")" : num(v); };
  if (!spatial) c1 = c2 = 0;
  int k = spatial ? (int)s.below(allow_t ? 6 : 3) : 3 + (int)s.below(3);
  std::string q;
  if (k == 0) { q = P(c1) + "*x + " + P(c2) + "*y"; b.f = [=](LD x, LD y, LD, LD) { return c1 * x + c2 * y; }; }
  if (k == 1) { q = P(c0) + "+" + P(c1) + "*z"; b.f = [=](LD, LD, LD z, LD) { return c0 + c1 * z; }; }
  if (k == 2) { q = P(c0) + "*cos(y*" + num(1 / L) + ")*(x-z)*" + num(1 / L); double il = 1 / L; b.f = [=](LD x, LD y, LD z, LD) { return c0 * cosl(y * il) * (x - z) * il; }; }
  if (k == 3) { q = P(c4) + "*t"; b.f = [=](LD, LD, LD, LD t) { return c4 * t; }; }
  if (k == 4) { q = P(c3) + " * sin( " + num(w) + " * t ) + " + P(c2) + "*x"; b.f = [=](LD x, LD, LD, LD t) { return c3 * sinl(w * t) + c2 * x; }; }
  if (k == 5) { double th = T * 0.5; q = "(t < " + num(th) + ") ? " + P(c0) + " : " + P(c3); b.f = [=](LD, LD, LD, LD t) { return t < (LD)th ? (LD)c0 : (LD)c3; }; }
  b.text = "\"" + q + "\"";
}
struct Opt {
  int maxcells = 3, maxbodies = 2, maxblocks = 3, maxsteps = 25;
  bool bcs = true, prescribed = true, far = true, only_neo = false, zero_t0 = false, spatial = true;
  int minbodies = 1, mincells = 1;
  double vscale = 0.02;
  bool contact = false, holes = true;
};
inline void finish(Model& m);
inline Model gen_model(Src& s, const Opt& o) {
  Model m;
  double h = s.chance(1, 3) ? 1 : s.chance(1, 4) ? s.logu(1e-10, 1e9) : s.logu(1e-2, 1e2);   // any system of units
  int nbody = (int)s.range(o.minbodies, o.maxbodies);
  std::vector<std::array<int, 8>> el;
  std::vector<int> ebody;
  double shift = 0;
  V3 lo0 = {0, 0, 0}, hi0 = lo0;   // box of the first body (contact)
  for (int b = 0; b < nbody; ++b) {
    int n[3];
    for (int& k : n) k = (int)s.size(o.mincells, o.maxcells);
    T3 A = s.chance(1, o.contact ? 2 : 3) ? eye() : gen_F(s, o.contact ? 1.3 : 1.8);
    double jit = s.chance(1, 4) ? 0 : s.uniform(0, 0.2);
    int base = m.nn();
    LD r = 0;
    for (int k = 0; k <= n[2]; ++k)
      for (int j = 0; j <= n[1]; ++j)
        for (int i = 0; i <= n[0]; ++i) {
          V3 p = {i + (jit > 0 ? s.usym(jit) : 0), j + (jit > 0 ? s.usym(jit) : 0), k + (jit > 0 ? s.usym(jit) : 0)};
          p = mv(A, p);
          for (LD v : p) r = std::max(r, fabsl(v));
          m.X.push_back(p);
          m.body.push_back(b);
        }
    for (int i = base; i < m.nn(); ++i) for (int d = 0; d < 3; ++d) m.X[i][d] = (m.X[i][d] + (d == 0 ? shift + (double)r : 0)) * h;
    shift += 2.5 * (double)r + 1;
    if (o.contact) {
      V3 lo = {INFINITY, INFINITY, INFINITY}, hi = {-INFINITY, -INFINITY, -INFINITY};
      for (int i = base; i < m.nn(); ++i) for (int d = 0; d < 3; ++d) { lo[d] = std::min(lo[d], m.X[i][d]); hi[d] = std::max(hi[d], m.X[i][d]); }
      if (b == 0) { lo0 = lo; hi0 = hi; }
      else {   // next to the first body, overlapping a little or apart a little, in a random direction
        int ax = (int)s.below(3);
        bool up = s.flip();
        V3 t;
        for (int d = 0; d < 3; ++d) t[d] = d == ax ? (up ? hi0[d] - lo[d] - s.uniform(-0.05, 0.35) * h : lo0[d] - hi[d] + s.uniform(-0.05, 0.35) * h) : (s.chance(1, 3) ? lo0[d] - lo[d] : (lo0[d] + hi0[d] - lo[d] - hi[d]) / 2 + s.usym(0.6) * h);
        for (int i = base; i < m.nn(); ++i) for (int d = 0; d < 3; ++d) m.X[i][d] = m.X[i][d] + t[d];
      }
    }
    bool holes = o.holes && s.chance(1, 4);
    int keep = 0;
    for (int k = 0; k < n[2]; ++k)
      for (int j = 0; j < n[1]; ++j)
        for (int i = 0; i < n[0]; ++i) {
          if (holes && keep && s.chance(1, 3)) continue;
          ++keep;
          auto id = [&](int a, int c, int e) { return base + (i + a) + (n[0] + 1) * ((j + c) + (n[1] + 1) * (k + e)); };
          el.push_back({id(0, 0, 0), id(1, 0, 0), id(1, 1, 0), id(0, 1, 0), id(0, 0, 1), id(1, 0, 1), id(1, 1, 1), id(0, 1, 1)});
          ebody.push_back(b);
        }
  }
  V3 off = {0, 0, 0};
  if (o.far && s.chance(1, 3)) off = {s.usym(30) * h, s.usym(30) * h, s.usym(30) * h};
  for (auto& p : m.X) for (int d = 0; d < 3; ++d) p[d] = (double)(p[d] + off[d]);
  // drop unused nodes, renumber the rest in random order
  std::vector<int> used(m.nn(), 0), to(m.nn(), -1);
  for (auto& e : el) for (int n : e) used[n] = 1;
  std::vector<int> live;
  for (int i = 0; i < m.nn(); ++i) if (used[i]) live.push_back(i);
  std::vector<int> order = s.chance(1, 4) ? std::vector<int>() : s.perm((int)live.size());
  std::vector<V3> X2;
  std::vector<int> b2;
  for (size_t k = 0; k < live.size(); ++k) { int i = live[order.empty() ? k : order[k]]; to[i] = (int)k; X2.push_back(m.X[i]); b2.push_back(m.body[i]); }
  m.X = X2; m.body = b2;
  for (auto& e : el) {
    auto q = s.chance(1, 2) ? hexperms()[0] : s.pick(hexperms());
    std::array<int, 8> w;
    for (int n = 0; n < 8; ++n) w[n] = to[e[q[n]]];
    e = w;
  }
  // blocks
  int nb = (int)s.range(1, o.maxblocks);
  std::vector<std::vector<int>> in(nb);
  auto pe = s.perm((int)el.size());
  if (o.contact && nb < 2) { nb = 2; in.resize(2); }
  for (int e : pe) {
    int k = (int)s.below(nb);
    if (o.contact && k < 2) k = ebody[e];      // the first two blocks are a body each, a third may hold parts of both
    in[k].push_back(e);
  }
  in.erase(std::remove_if(in.begin(), in.end(), [](const std::vector<int>& v) { return v.empty(); }), in.end());
  nb = (int)in.size();
  m.bid = gen_ids(s, nb, 60);
  if (s.flip()) std::reverse(m.bid.begin(), m.bid.end());
  double K0 = s.chance(1, 3) ? 1 : s.chance(1, 5) ? s.logu(1e-12, 1e20) : s.logu(1e-2, 1e10), rho0 = s.chance(1, 3) ? 1 : s.chance(1, 4) ? s.logu(1e-12, 1e13) : s.logu(1e-3, 1e4);
  for (int b = 0; b < nb; ++b) {
    Mat x;
    x.neo = o.only_neo || s.chance(2, 3);
    x.K = K0 * (b ? s.uniform(0.4, 2) : 1);
    x.G = x.K * s.uniform(0.1, 1.5);
    x.rho = rho0 * (b ? s.uniform(0.4, 2) : 1);
    x.K = (double)x.K; x.G = (double)x.G; x.rho = (double)x.rho;
    m.mat.push_back(x);
    for (int e : in[b]) { m.el.push_back(el[e]); m.eb.push_back(b); }
  }
  for (int e = 0; e < m.ne(); ++e) if (!hexok(m.hex(e), 0.15L)) throw Discard();
  finish(m);
  if (o.contact) {
    for (int b = 0; b < nb; ++b) {
      int k = (int)s.below(4);     // usually: one block against the others
      bool p = b == 0 || (b > 1 && k == 0), q = b == 1 || (b > 1 && k == 1);
      if (p) m.prim.push_back(b);
      if (q) m.sec.push_back(b);
    }
    if (s.flip()) std::swap(m.prim, m.sec);
    m.penalty = (double)(m.mat[0].K * m.hmin) * s.logu(1e-3, 0.1);
  }
  double frac = s.uniform(0.05, 0.35);
  m.steps = (int)s.size(1, o.maxsteps);
  double dt = frac * (double)(m.hmin / m.cmax);
  m.t0 = o.zero_t0 || s.flip() ? 0 : s.usym(3) * dt * m.steps;
  m.tf = m.t0 + dt * m.steps;
  m.freq = s.pick({1, 1, 1, 2, 3, 7});
  if (s.chance(1, 2)) {
    m.nid = gen_ids(s, m.nn(), 1000000);
    m.eid = gen_ids(s, m.ne(), 1000000);
    if (s.flip()) { auto p = s.perm(m.nn()); auto c = m.nid; for (int i = 0; i < m.nn(); ++i) m.nid[i] = c[p[i]]; }
    m.aux_ids = s.chance(1, 3);
  }
  m.named_blocks = s.flip();
  // sets and conditions
  if (o.bcs) {
    int ns = (int)s.range(1, 4);
    auto ids = gen_ids(s, ns, 100);
    std::set<std::string> names;
    for (int k = 0; k < ns; ++k) {
      Set t;
      t.id = ids[k];
      t.name = "nodelist_" + std::to_string(t.id);
      if (s.flip()) { t.name = gen_name(s, names, "ns"); }
      int n = s.chance(1, 5) ? m.nn() : (int)s.range(0, m.nn());
      auto p = s.perm(m.nn());
      t.nodes.assign(p.begin(), p.begin() + n);
      m.sets.push_back(t);
    }
    double T = dt * m.steps, L = (double)m.hmax * 3, v = o.vscale * s.unit() * (double)m.cmax;
    for (auto& p : m.X) for (LD c : p) L = std::max(L, (double)fabsl(c));
    // different prescribed conditions never meet on one degree of freedom: which of two wins is not specified
    std::vector<std::map<int, int>> held(3);
    int nbc = (int)s.range(0, 5);
    for (int k = 0; k < nbc; ++k) {
      BC b;
      b.kind = o.prescribed ? (int)s.below(3) : 0;
      b.set = (int)s.below(ns);
      b.coord = (int)s.below(3);
      if (b.kind) {
        std::set<int> clash;
        for (int n : m.sets[b.set].nodes) { auto h = held[b.coord].find(n); if (h != held[b.coord].end()) clash.insert(h->second); }
        if (clash.size() > 1) continue;
        int as = clash.empty() ? (int)m.bc.size() : *clash.begin();
        for (int n : m.sets[b.set].nodes) held[b.coord][n] = as;
        if (!clash.empty()) { int set = b.set; b = m.bc[as]; b.set = set; m.bc.push_back(b); s.label("condition repeated"); continue; }
      }
      gen_value(s, b.kind == 2 ? v * T : v, L, T, b.kind > 0, b, o.spatial);
      m.bc.push_back(b);
    }
  }
  return m;
}
inline LD bulkspeed(const Mat& m) { return sqrtl(m.K / m.rho); }
inline LD charlen(const Hex& h) {
  LD best = INFINITY;
  for (int a = 0; a < 8; ++a) for (int b = 0; b < a; ++b) best = std::min(best, vnorm(vsub(h[a], h[b])));
  for (int d = 0; d < 3; ++d) { LD lo = h[0][d], hi = lo; for (auto& p : h) { lo = std::min(lo, p[d]); hi = std::max(hi, p[d]); } best = std::min(best, hi - lo); }
  return best;
}
inline void finish(Model& m) {
  m.hmin = INFINITY; m.hmax = 0; m.cmax = 0;
  for (int e = 0; e < m.ne(); ++e) {
    Hex h = m.hex(e);
    LD c = charlen(h), V = hexvolume(h), far = 0;
    for (auto& a : h) for (auto& b : h) far = std::max(far, vnorm(vsub(a, b)));
    // the height of a sheared element is smaller than its edges
    m.hmin = std::min({m.hmin, c, V / (far * far) * 3});
    m.hmax = std::max(m.hmax, far);
    auto& x = m.mat[m.eb[e]];
    m.cmax = std::max(m.cmax, sqrtl((x.K + 4 * x.G / 3) / x.rho));
  }
}
struct Rec {
  double t;
  std::vector<V3> u, v, a, f, fc;
  std::vector<std::array<T3, 8>> F, sig;
  std::vector<int> ctri, cnode;          // which triangles and nodes of the contact model are in contact
  std::vector<LD> vol;
};
struct Tol { LD u = 0, v = 0, a = 0, f = 0, s = 0, F = 0, vol = 0, far = 0, c = 0; };
inline LD& rounding_scale() { static LD v = 0.1L; return v; }
// Exodus side numbering, outward
static const int SIDE[6][4] = {{0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6}, {0, 4, 7, 3}, {0, 3, 2, 1}, {4, 5, 6, 7}};
struct Face { int e, side; std::array<int, 4> n; };
inline std::vector<Face> exposed(const Model& m, const std::set<int>& blocks) {
  std::map<std::array<int, 4>, std::vector<Face>> f;
  for (int e = 0; e < m.ne(); ++e)
    if (blocks.count(m.bid[m.eb[e]]))
      for (int k = 0; k < 6; ++k) {
        Face q; q.e = e; q.side = k;
        for (int i = 0; i < 4; ++i) q.n[i] = m.el[e][SIDE[k][i]];
        auto key = q.n; std::sort(key.begin(), key.end());
        f[key].push_back(q);
      }
  std::vector<Face> r;
  for (auto& kv : f) if (kv.second.size() == 1) r.push_back(kv.second[0]);
  return r;
}
// what the contact model of a run does: every contact node against every triangle of the contact faces
struct Contact {
  std::vector<Face> faces;
  std::vector<LD> len;          // longest edge of each face, undeformed
  std::vector<int> nodes;
  LD dgap = 0, worst = 0;       // rounding of a gap; largest pen * pairs at a node so far
  bool ambiguous = false;
};
inline Contact contact_model(const Model& m) {
  Contact c;
  auto ids = [&](const std::vector<int>& v) { std::set<int> r; for (int b : v) r.insert(m.bid[b]); return r; };
  c.faces = exposed(m, ids(m.prim));
  for (auto& f : c.faces) { LD l = 0; for (int i = 0; i < 4; ++i) l = std::max(l, vnorm(vsub(m.X[f.n[i]], m.X[f.n[(i + 1) % 4]]))); c.len.push_back(l); }
  std::set<int> q;
  for (auto& f : exposed(m, ids(m.sec))) for (int n : f.n) q.insert(n);
  c.nodes.assign(q.begin(), q.end());
  LD Xm = 0;
  for (auto& p : m.X) for (LD v : p) Xm = std::max(Xm, fabsl(v));
  c.dgap = 2e-14L * Xm;
  return c;
}
// nodal contact forces at displacements u; ntri[i] / nnode[i]: is the triangle (4 per face) / contact node in contact
inline std::vector<V3> contact_force(const Model& m, Contact& c, const std::vector<V3>& u, LD du, std::vector<int>* ntri = nullptr, std::vector<int>* nnode = nullptr) {
  std::vector<V3> f(m.nn(), V3{0, 0, 0});
  std::vector<int> cnt(m.nn(), 0);
  if (ntri) ntri->assign(4 * c.faces.size(), 0);
  if (nnode) nnode->assign(c.nodes.size(), 0);
  std::vector<V3> x(m.nn());
  for (int i = 0; i < m.nn(); ++i) x[i] = vadd(m.X[i], u[i]);
  LD e = c.dgap + du;
  for (size_t k = 0; k < c.faces.size(); ++k) {
    auto& q = c.faces[k].n;
    V3 cen = {0, 0, 0};
    for (int i : q) cen = vadd(cen, x[i], 0.25L);
    LD r = 0;
    for (int i : q) r = std::max(r, vnorm(vsub(x[i], cen)));
    for (size_t j = 0; j < c.nodes.size(); ++j) {
      const V3& p = x[c.nodes[j]];
      V3 w = vsub(p, cen);
      if (vnorm(w) > (r + c.len[k]) * 2) continue;
      for (int t = 0; t < 4; ++t) {
        int a = q[t], b = q[(t + 1) % 4];
        V3 U = vsub(x[b], x[a]), V = vsub(cen, x[a]), W = vsub(p, x[a]), n = cross(U, V);
        LD n2 = dot(n, n), L = sqrtl(n2), sl = r * r / L;
        LD g = dot(W, n) / L;
        if (g > e * 4 || g < -c.len[k] - e * 4) continue;
        LD a3 = dot(cross(U, W), n) / n2, a2 = dot(cross(W, V), n) / n2, a1 = 1 - a2 - a3, lo = std::min({a1, a2, a3});
        LD tb = (e / r + 1e-15L * 50) * sl * sl * 8;
        // on the rim of the triangle, or at the depth limit, rounding decides
        if (tb > 1e-9L || fabsl(lo + 1e-8L) < tb || (lo < 0 && lo > -1e-7L - tb && lo < -tb)) { if (lo > -1e-7L - tb && g < -e * 64) c.ambiguous = true; }
        if (!(lo > -1e-8L - tb)) continue;
        if (fabsl(g + c.len[k]) < e * 4 + 1e-8L * c.len[k]) c.ambiguous = true;
        // every pair that may act adds its rounding
        for (int i : q) { ++cnt[i]; c.worst = std::max(c.worst, cnt[i] * (LD)m.penalty * (sl * sl * 4 + 4)); }
        ++cnt[c.nodes[j]];
        c.worst = std::max(c.worst, cnt[c.nodes[j]] * (LD)m.penalty * (sl * sl * 4 + 4));
        if (!(lo > -1e-8L)) continue;
        if (!(g < 0 && g > -c.len[k])) { if (fabsl(g) < 4 * e) { if (ntri && !(*ntri)[4 * k + t]) (*ntri)[4 * k + t] = 2; if (nnode && !(*nnode)[j]) (*nnode)[j] = 2; } continue; }
        V3 F;
        for (int d = 0; d < 3; ++d) F[d] = -(LD)m.penalty * g * n[d] / L;
        int z = c.nodes[j];
        f[z] = vadd(f[z], F);
        f[a] = vadd(f[a], F, -a1);
        f[b] = vadd(f[b], F, -a2);
        for (int i : q) f[i] = vadd(f[i], F, -a3 / 4);
        int st = g < -4 * e ? 1 : 2;      // 2: rounding decides
        if (ntri && (*ntri)[4 * k + t] != 1) (*ntri)[4 * k + t] = st;
        if (nnode && (*nnode)[j] != 1) (*nnode)[j] = st;
      }
    }
  }
  return f;
}
struct Ref {
  std::vector<LD> mass;
  std::vector<Rec> rec;       // every record of the run
  std::vector<Rec> all;       // every step (if kept)
  Tol tol;
  bool bad = false, touched = false;
  LD dtcrit = INFINITY, vscale = 0;
  Contact con;
};
inline LD element_mass_row(const Hex& h, int n) {
  LD s = 0;
  for (int q = 0; q < 8; ++q) s += shape(n, gauss(q)) * det(jac(h, gauss(q)));
  return s;
}
inline void internal(const Model& m, const std::vector<V3>& u, Rec& r, bool& bad) {
  r.F.resize(m.ne()); r.sig.resize(m.ne()); r.vol.resize(m.ne());
  r.f.assign(m.nn(), V3{0, 0, 0});
  for (int e = 0; e < m.ne(); ++e) {
    Hex X = m.hex(e), x = m.hex(e, &u);
    for (int q = 0; q < 8; ++q) {
      r.F[e][q] = defgrad(X, x, gauss(q));
      LD J = det(r.F[e][q]);
      if (!(J > 0.3L && J < 3)) bad = true;
      r.sig[e][q] = cauchy(m.mat[m.eb[e]], r.F[e][q]);
    }
    r.vol[e] = hexvolume(x);
    auto f = forces(x, r.sig[e]);
    for (int a = 0; a < 8; ++a) r.f[m.el[e][a]] = vadd(r.f[m.el[e][a]], f[a]);
  }
}
inline Ref reference(const Model& m, bool keep_all = false) {
  Ref R;
  int N = m.nn();
  R.mass.assign(N, 0);
  for (int e = 0; e < m.ne(); ++e) {
    Hex h = m.hex(e);
    for (int a = 0; a < 8; ++a) R.mass[m.el[e][a]] += m.mat[m.eb[e]].rho * element_mass_row(h, a);
    R.dtcrit = std::min(R.dtcrit, charlen(h) / bulkspeed(m.mat[m.eb[e]]));
  }
  Rec c;
  c.u.assign(N, V3{0, 0, 0}); c.v = c.a = c.f = c.fc = c.u;
  if (m.penalty > 0) R.con = contact_model(m);
  LD cmax2 = 0;
  auto val = [&](const BC& b, int n, LD t) { return b.f(m.X[n][0], m.X[n][1], m.X[n][2], t); };
  for (auto& b : m.bc) if (b.kind == 0) for (int n : m.sets[b.set].nodes) c.v[n][b.coord] = val(b, n, 0);
  auto kin = [&](double t, double tp) {
    for (auto& b : m.bc)
      for (int n : m.sets[b.set].nodes) {
        if (b.kind == 1) c.v[n][b.coord] = val(b, n, t);
        if (b.kind == 2 && t > tp) c.v[n][b.coord] = (val(b, n, t) - c.u[n][b.coord]) / (t - tp);
      }
  };
  kin(m.t0, m.t0);
  for (auto& w : c.v) for (LD x : w) R.vscale = std::max(R.vscale, fabsl(x));
  double t = m.t0, dt0 = (m.tf - m.t0) / m.steps;
  c.t = t;
  internal(m, c.u, c, R.bad);
  c.f.assign(N, V3{0, 0, 0});
  R.rec.push_back(c);
  if (keep_all) R.all.push_back(c);
  LD umax = 0, vmax = 0, fmax = 0, amax = 0, smax = 0;
  for (int s = 0; s < m.steps; ++s) {
    double tp = t;
    t += dt0;
    LD dt = (LD)t - (LD)tp;
    for (int n = 0; n < N; ++n) c.v[n] = vadd(c.v[n], c.a[n], dt / 2);
    kin(t, tp);
    for (int n = 0; n < N; ++n) c.u[n] = vadd(c.u[n], c.v[n], dt);
    kin(t, tp);
    internal(m, c.u, c, R.bad);
    if (m.penalty > 0) {
      c.fc = contact_force(m, R.con, c.u, 1e-12L * umax, &c.ctri, &c.cnode);
      for (auto& w : c.fc) { LD l = vnorm(w); cmax2 = std::max(cmax2, l); if (l > 0) R.touched = true; }
      if (R.con.ambiguous) { R.bad = true; return R; }
    }
    for (int n = 0; n < N; ++n) { for (int d = 0; d < 3; ++d) c.a[n][d] = (c.f[n][d] + c.fc[n][d]) / R.mass[n]; c.v[n] = vadd(c.v[n], c.a[n], dt / 2); }
    c.t = t;
    if (keep_all) R.all.push_back(c);
    for (int n = 0; n < N; ++n) { umax = std::max(umax, vnorm(c.u[n])); vmax = std::max(vmax, vnorm(c.v[n])); fmax = std::max(fmax, vnorm(c.f[n])); amax = std::max(amax, vnorm(c.a[n])); }
    for (auto& e : c.sig) for (auto& q : e) smax = std::max(smax, nrm(q));
    if (m.freq != 0 && (s % m.freq == 0 || s == m.steps - 1)) { kin(t, tp); R.rec.push_back(c); }
    if (R.bad) return R;
  }
  // rounding bounds
  LD Km = 0, Xm = 0, mm = INFINITY, T = (LD)dt0 * m.steps;
  for (auto& x : m.mat) Km = std::max(Km, x.K + 4 * x.G / 3);
  for (auto& p : m.X) for (LD v : p) Xm = std::max(Xm, fabsl(v));
  for (LD v : R.mass) mm = std::min(mm, v);
  LD c0 = R.con.worst * R.con.dgap + 1e-14L * cmax2;
  LD far = 1 + Xm / m.hmin, s0 = 1e-14L * rounding_scale() * Km * far * (m.hmax / m.hmin), f0 = 32 * s0 * m.hmax * m.hmax + c0, a0 = f0 / mm;
  Tol& q = R.tol;
  q.far = far * 0.01L;
  q.u = 2 * T * T * a0 + 1e-12L * umax;
  q.v = 2 * T * a0 + 1e-12L * vmax + 1e-14L * (umax + Xm * 1e-3L * 0) / dt0;
  q.F = 1e-14L * rounding_scale() * far * (m.hmax / m.hmin) + 8 * q.u / m.hmin;
  q.s = s0 + 8 * Km * q.u / m.hmin + 1e-12L * smax;
  q.f = 32 * q.s * m.hmax * m.hmax;
  q.c = m.penalty > 0 ? c0 + R.con.worst * q.u + 1e-12L * cmax2 : 0;
  q.a = (q.f + q.c) / mm + 1e-12L * amax;
  q.vol = m.hmax * m.hmax * m.hmax * (q.F * 8);
  return R;
}
// the part of a model some of its elements make up
// key = 0: nodes and elements in the order of the model, otherwise shuffled (elements within their blocks)
inline Model part(const Model& m, const std::vector<int>& els, std::vector<int>& nodes, std::vector<int>& elems, bool keep_empty, unsigned long key = 0) {
  Model p = m;
  std::vector<int> to(m.nn(), -1);
  auto rank_of = [&](unsigned long i) {
    if (!key) return 0ul;
    unsigned long h = (i + 1) * 0x9e3779b97f4a7c15ul ^ key * 0xbf58476d1ce4e5b9ul;
    h ^= h >> 29; h *= 0x94d049bb133111ebul; h ^= h >> 32;
    return h;
  };
  nodes.clear(); elems = els;
  std::sort(elems.begin(), elems.end());   // model order = block by block
  std::set<int> seen;
  for (int e : elems) for (int n : m.el[e]) seen.insert(n);
  if (key) std::stable_sort(elems.begin(), elems.end(), [&](int a, int b) { return std::make_pair(m.eb[a], rank_of(a)) < std::make_pair(m.eb[b], rank_of(b)); });
  std::vector<int> used(seen.begin(), seen.end());
  std::stable_sort(used.begin(), used.end(), [&](int a, int b) { return rank_of(a) < rank_of(b); });
  p.X.clear(); p.body.clear(); p.el.clear(); p.eb.clear(); p.nid.clear(); p.eid.clear();
  for (int n : used) { to[n] = (int)nodes.size(); nodes.push_back(n); p.X.push_back(m.X[n]); p.body.push_back(m.body[n]); p.nid.push_back(m.nid.empty() ? n + 1 : m.nid[n]); }
  for (int e : elems) {
    std::array<int, 8> q = m.el[e];
    for (int& n : q) n = to[n];
    p.el.push_back(q); p.eb.push_back(m.eb[e]); p.eid.push_back(m.eid.empty() ? e + 1 : m.eid[e]);
  }
  for (auto& t : p.sets) { std::vector<int> v; for (int n : t.nodes) if (to[n] >= 0) v.push_back(to[n]); t.nodes = v; }
  if (!keep_empty) {
    std::vector<int> nb(m.bid.size(), -1);
    std::vector<int> bid; std::vector<Mat> mat;
    for (size_t b = 0; b < m.bid.size(); ++b) if (std::count(p.eb.begin(), p.eb.end(), (int)b)) { nb[b] = (int)bid.size(); bid.push_back(m.bid[b]); mat.push_back(m.mat[b]); }
    for (int& b : p.eb) b = nb[b];
    p.bid = bid; p.mat = mat;
  }
  return p;
}
// the numbering a rank uses on its own, drawn alike on all ranks
inline unsigned long part_key(Src& s) {
  unsigned long k = s.flip() ? 1 + (unsigned long)s.below(1 << 20) : 0;
  return k ? k * 64 + (unsigned long)s.rank : 0;
}
// ---- files
inline Exo to_exo(const Model& m) {
  Exo x;
  for (auto& p : m.X) { x.x.push_back((double)p[0]); x.y.push_back((double)p[1]); x.z.push_back((double)p[2]); }
  x.nid = m.nid; x.eid = m.eid; x.aux = m.aux_ids;
  for (size_t b = 0; b < m.bid.size(); ++b) {
    EBlock k;
    k.id = m.bid[b]; k.nper = 8; k.type = "HEX8";
    if (m.named_blocks) k.name = "block_" + std::to_string(k.id);
    for (int e = 0; e < m.ne(); ++e) if (m.eb[e] == (int)b) k.conn.insert(k.conn.end(), m.el[e].begin(), m.el[e].end());
    x.blocks.push_back(k);
  }
  for (auto& t : m.sets) {
    ESet e;
    e.id = t.id;
    if (t.name != "nodelist_" + std::to_string(t.id)) e.name = t.name;
    e.a = t.nodes;
    if (t.id % 2) e.df.assign(t.nodes.size(), 1.0);
    x.nsets.push_back(e);
  }
  return x;
}
// other blanks between the words behind the colon
inline std::string spaced(Src& s, const std::string& l) {
  std::string r;
  bool quoted = false, value = false;
  for (char c : l) {
    if (c == '"') quoted = !quoted;
    if (c == ' ' && value && !quoted && s.chance(1, 3)) r += s.pick<std::string>({"  ", "\t", " \t", "\t  "});
    else r += c;
    if (c == ':') value = true;
  }
  return r;
}
inline std::string deck(Src& s, const Model& m, const std::string& extra = "") {
  std::vector<std::string> l;
  if (m.penalty > 0) {
    bool old = s.flip();
    std::string c = std::string("contact: ") + (old ? "master_blocks" : "primary_blocks");
    for (int b : m.prim) c += " block_" + std::to_string(m.bid[b]);
    c += old ? " slave_blocks" : " secondary_blocks";
    for (int b : m.sec) c += " block_" + std::to_string(m.bid[b]);
    l.push_back(c + " penalty_parameter " + num(m.penalty));
  }
  l.push_back("genesis input file: m.g");
  l.push_back("exodus output file: r.e");
  l.push_back(s.flip() ? "time integration scheme: " + m.scheme : "time integration scheme:   " + m.scheme + " ");
  for (auto& x : m.lines) l.push_back(x);
  l.push_back("initial time: " + num(m.t0));
  l.push_back("final time: " + num(m.tf));
  l.push_back("number of load steps: " + std::to_string(m.steps));
  l.push_back("output frequency: " + std::to_string(m.freq));
  l.push_back("output fields: " + m.fields);
  bool share = s.flip();
  std::vector<std::string> lab;
  for (size_t b = 0; b < m.bid.size(); ++b) {
    auto& x = m.mat[b];
    std::string key;
    for (size_t c = 0; share && c < b && key.empty(); ++c) if (m.mat[c].neo == x.neo && m.mat[c].K == x.K && m.mat[c].G == x.G && m.mat[c].rho == x.rho && m.mat[c].model == x.model && m.mat[c].extra == x.extra) key = lab[c];
    if (key.empty()) {
      key = "material_" + std::to_string(b + 1);
      std::vector<std::string> p = {" density " + num((double)x.rho), " bulk_modulus " + num((double)x.K), " shear_modulus " + num((double)x.G)};
      std::string t = "material parameters: " + key + " " + (!x.model.empty() ? x.model : x.neo ? "neohookean" : "elastic");
      for (int k : s.perm(3)) t += p[k];
      t += x.extra;
      l.push_back(t);
    }
    lab.push_back(key);
    l.push_back("element block: block_" + std::to_string(m.bid[b]) + " " + key);
  }
  std::string out;
  std::vector<std::string> bc;
  static const char* kind[3] = {"initial_velocity", "prescribed_velocity", "prescribed_displacement"};
  for (auto& b : m.bc) bc.push_back(std::string("boundary condition: ") + kind[b.kind] + " " + m.sets[b.set].name + " " + "xyz"[b.coord] + " " + b.text);
  if (!extra.empty()) l.push_back(extra);
  // without contact there is nothing to visualize
  else if (!(m.penalty > 0) && s.chance(1, 8)) l.push_back(std::string("contact visualization: visualize_contact_entities ") + (s.flip() ? "on" : "off") + " visualize_bounding_boxes on file_name cv.e");
  if (!m.plain && s.chance(1, 6)) {
    for (auto& x : l) x = spaced(s, x);
    for (auto& x : bc) x = spaced(s, x);
    s.label("other blanks");
  }
  auto p = s.perm((int)l.size());
  // lines in any order, the conditions keep theirs
  size_t k = 0;
  for (int i : p) {
    while (k < bc.size() && s.chance(1, 3)) out += bc[k++] + "\n";
    out += l[i] + "\n";
    if (s.chance(1, 10)) out += s.flip() ? "# a comment: of no effect\n" : "\n";
  }
  while (k < bc.size()) out += bc[k++] + "\n";
  return out;
}
inline std::string describe(const Model& m) {
  std::ostringstream o;
  o << m.nn() << " nodes " << m.ne() << " elements, blocks";
  for (size_t b = 0; b < m.bid.size(); ++b) o << " " << m.bid[b] << (m.mat[b].neo ? ":neo" : ":el");
  o << ", t " << m.t0 << ".." << m.tf << " in " << m.steps << " steps, freq " << m.freq << ", " << m.bc.size() << " conditions, ids " << (m.nid.empty() ? "default" : m.aux_ids ? "aux" : "mapped") << ", fields '" << m.fields << "'";
  return o.str();
}
}  // namespace sim
