// independent long-double reference for the 8-node hexahedron, 3x3 algebra and the two materials
#pragma once
#include "vp.h"
#include <array>
typedef long double LD;
typedef std::array<std::array<LD, 3>, 3> T3;
typedef std::array<LD, 3> V3;
inline T3 t3zero() { T3 r; for (auto& a : r) a.fill(0); return r; }
inline T3 eye() { T3 r = t3zero(); for (int i = 0; i < 3; ++i) r[i][i] = 1; return r; }
inline T3 mul(const T3& a, const T3& b) { T3 r = t3zero(); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) r[i][j] += a[i][k] * b[k][j]; return r; }
inline T3 tr(const T3& a) { T3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r[i][j] = a[j][i]; return r; }
inline T3 add(const T3& a, const T3& b, LD f = 1) { T3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r[i][j] = a[i][j] + f * b[i][j]; return r; }
inline T3 sca(LD f, const T3& a) { T3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r[i][j] = f * a[i][j]; return r; }
inline LD det(const T3& m) { return m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]); }
inline LD trace(const T3& m) { return m[0][0] + m[1][1] + m[2][2]; }
inline T3 inv(const T3& m) {
  LD d = det(m);
  T3 r;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) {
      int a = (j + 1) % 3, b = (j + 2) % 3, c = (i + 1) % 3, e = (i + 2) % 3;
      r[i][j] = (m[a][c] * m[b][e] - m[a][e] * m[b][c]) / d;
    }
  return r;
}
inline LD nrm(const T3& a) { LD s = 0; for (auto& r : a) for (LD v : r) s += v * v; return sqrtl(s); }
inline V3 mv(const T3& a, const V3& x) { V3 r; for (int i = 0; i < 3; ++i) r[i] = a[i][0] * x[0] + a[i][1] * x[1] + a[i][2] * x[2]; return r; }
inline V3 cross(const V3& a, const V3& b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
inline LD dot(const V3& a, const V3& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline V3 vsub(const V3& a, const V3& b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
inline V3 vadd(const V3& a, const V3& b, LD f = 1) { return {a[0] + f * b[0], a[1] + f * b[1], a[2] + f * b[2]}; }
inline LD vnorm(const V3& a) { return sqrtl(dot(a, a)); }
inline T3 rotation(const V3& w) {  // exp of the skew matrix of w
  LD th = vnorm(w);
  T3 k = t3zero();
  k[0][1] = -w[2]; k[0][2] = w[1]; k[1][0] = w[2]; k[1][2] = -w[0]; k[2][0] = -w[1]; k[2][1] = w[0];
  LD a = th < 1e-4L ? 1 - th * th / 6 + th * th * th * th / 120 : sinl(th) / th, b = th < 1e-4L ? 0.5L - th * th / 24 + th * th * th * th / 720 : (1 - cosl(th)) / (th * th);
  return add(add(eye(), k, a), mul(k, k), b);
}
// component orders used by NimbleSM's storage, written out independently of its constants
static const int FI[9] = {0, 1, 2, 0, 1, 2, 1, 2, 0}, FJ[9] = {0, 1, 2, 1, 2, 0, 0, 1, 2};  // xx yy zz xy yz zx yx zy xz
static const int SI[6] = {0, 1, 2, 0, 1, 2}, SJ[6] = {0, 1, 2, 1, 2, 0};                    // xx yy zz xy yz zx
inline void put_full(const T3& t, double* m) { for (int k = 0; k < 9; ++k) m[k] = (double)t[FI[k]][FJ[k]]; }
inline T3 get_full(const double* m) { T3 t; for (int k = 0; k < 9; ++k) t[FI[k]][FJ[k]] = m[k]; return t; }
inline void put_sym(const T3& t, double* m) { for (int k = 0; k < 6; ++k) m[k] = (double)t[SI[k]][SJ[k]]; }
inline T3 get_sym(const double* m) { T3 t; for (int k = 0; k < 6; ++k) t[SI[k]][SJ[k]] = t[SJ[k]][SI[k]] = m[k]; return t; }
inline T3 rounded(const T3& t) { T3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r[i][j] = (double)t[i][j]; return r; }

// material: Cauchy stress
struct Mat { bool neo; LD K, G, rho; std::string model, extra; };   // model, extra: a law of the harness
inline T3 cauchy(const Mat& m, const T3& F) {
  if (!m.neo) {
    T3 e = add(F, tr(F));
    for (auto& r : e) for (auto& v : r) v *= 0.5L;
    for (int i = 0; i < 3; ++i) e[i][i] -= 1;
    return add(sca(2 * m.G, e), eye(), (m.K - 2 * m.G / 3) * trace(e));
  }
  LD J = det(F), f = 1 / powl(J, 2.0L / 3);
  T3 b = sca(f, mul(F, tr(F)));
  LD t = trace(b) / 3;
  return add(sca(0.5L * m.K * (J - 1 / J), eye()), add(b, eye(), -t), m.G / J);
}
inline LD energy(const Mat& m, const T3& F) {  // neo-Hookean, per reference volume
  LD J = det(F);
  return 0.5L * m.K * (0.5L * (J * J - 1) - logl(J)) + 0.5L * m.G * (trace(mul(F, tr(F))) / powl(J, 2.0L / 3) - 3);
}
// hexahedron
static const int HS[8][3] = {{-1, -1, -1}, {1, -1, -1}, {1, 1, -1}, {-1, 1, -1}, {-1, -1, 1}, {1, -1, 1}, {1, 1, 1}, {-1, 1, 1}};
typedef std::array<V3, 8> Hex;
inline LD shape(int n, const V3& p) { return 0.125L * (1 + HS[n][0] * p[0]) * (1 + HS[n][1] * p[1]) * (1 + HS[n][2] * p[2]); }
inline V3 dshape(int n, const V3& p) {
  V3 r;
  for (int d = 0; d < 3; ++d) {
    int a = (d + 1) % 3, b = (d + 2) % 3;
    r[d] = 0.125L * HS[n][d] * (1 + HS[n][a] * p[a]) * (1 + HS[n][b] * p[b]);
  }
  return r;
}
inline V3 gauss(int q) { LD g = 1 / sqrtl(3.0L); return {HS[q][0] * g, HS[q][1] * g, HS[q][2] * g}; }
inline T3 jac(const Hex& x, const V3& p) {
  T3 a = t3zero();
  for (int n = 0; n < 8; ++n) { V3 d = dshape(n, p); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) a[i][j] += x[n][i] * d[j]; }
  return a;
}
inline T3 defgrad(const Hex& X, const Hex& x, const V3& p) { return mul(jac(x, p), inv(jac(X, p))); }
// gradients of the shape functions with respect to x at p
inline std::array<V3, 8> grads(const Hex& x, const V3& p) {
  T3 ai = tr(inv(jac(x, p)));
  std::array<V3, 8> g;
  for (int n = 0; n < 8; ++n) g[n] = mv(ai, dshape(n, p));
  return g;
}
inline LD hexvolume(const Hex& x) { LD v = 0; for (int q = 0; q < 8; ++q) v += det(jac(x, gauss(q))); return v; }
// exact volume by the divergence theorem over the bilinear faces, independent of the above
inline LD hexvolume2(const Hex& x) {
  static const int F[6][4] = {{0, 3, 2, 1}, {4, 5, 6, 7}, {0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6}, {3, 0, 4, 7}};
  LD v = 0, g = sqrtl(0.6L), P[3] = {-g, 0, g}, W[3] = {5 / 9.0L, 8 / 9.0L, 5 / 9.0L};
  for (auto& f : F)
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j) {
        LD r = P[i], s = P[j], N[4] = {(1 - r) * (1 - s) / 4, (1 + r) * (1 - s) / 4, (1 + r) * (1 + s) / 4, (1 - r) * (1 + s) / 4};
        LD dr[4] = {-(1 - s) / 4, (1 - s) / 4, (1 + s) / 4, -(1 + s) / 4}, ds[4] = {-(1 - r) / 4, -(1 + r) / 4, (1 + r) / 4, (1 - r) / 4};
        V3 p = {0, 0, 0}, a = p, b = p;
        for (int n = 0; n < 4; ++n) { p = vadd(p, x[f[n]], N[n]); a = vadd(a, x[f[n]], dr[n]); b = vadd(b, x[f[n]], ds[n]); }
        v += W[i] * W[j] * dot(p, cross(a, b)) / 3;
      }
  return v;
}
inline bool hexok(const Hex& x, LD minratio = 0.05L) {  // Jacobian positive at corners, centre and integration points
  LD c = det(jac(x, {0, 0, 0}));
  if (!(c > 0)) return false;
  for (int q = 0; q < 8; ++q) {
    V3 p = {(LD)HS[q][0], (LD)HS[q][1], (LD)HS[q][2]};
    if (det(jac(x, p)) < minratio * c || det(jac(x, gauss(q))) < minratio * c) return false;
  }
  return true;
}
inline std::array<V3, 8> forces(const Hex& x, const std::array<T3, 8>& s) {
  std::array<V3, 8> f;
  for (auto& v : f) v = {0, 0, 0};
  for (int q = 0; q < 8; ++q) {
    V3 p = gauss(q);
    LD J = det(jac(x, p));
    auto g = grads(x, p);
    for (int n = 0; n < 8; ++n) f[n] = vadd(f[n], mv(s[q], g[n]), -J);
  }
  return f;
}
// small-strain elastic tangent, assembled directly: K_(a,i)(b,j) = sum lambda ga_i gb_j + G (ga_j gb_i + delta_ij ga.gb)
typedef std::array<std::array<LD, 24>, 24> Tangent;
inline Tangent hex_tangent(const Hex& x, const Mat& m, const std::array<LD, 8>* w = nullptr) {
  LD lam = m.K - 2 * m.G / 3;
  Tangent R;
  for (auto& r : R) r.fill(0);
  for (int q = 0; q < 8; ++q) {
    auto g = grads(x, gauss(q));
    LD J = det(jac(x, gauss(q))) * (w ? (*w)[q] : 1);
    for (int a = 0; a < 8; ++a) for (int b = 0; b < 8; ++b) { LD gg = dot(g[a], g[b]); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) R[3 * a + i][3 * b + j] += J * (lam * g[a][i] * g[b][j] + m.G * (g[a][j] * g[b][i] + (i == j ? gg : 0))); }
  }
  return R;
}
// ---- generators
inline V3 gen_rotvec(vp::Src& s) {
  LD pi = acosl(-1.0L);
  switch (s.below(8)) {
    case 0: return {0, 0, 0};
    case 1: { V3 w = {0, 0, 0}; w[s.below(3)] = (s.flip() ? 1 : -1) * pi / 2 * s.range(1, 2); return w; }
    case 2: { LD a = s.logu(1e-10, 1e-2); return {a * s.usym(1), a * s.usym(1), a * s.usym(1)}; }
    default: {
      V3 w = {s.usym(1), s.usym(1), s.usym(1)};
      LD n = vnorm(w);
      if (n < 1e-3L) return {0, 0, 1};
      LD th = s.uniform(0, (double)pi);
      return {w[0] / n * th, w[1] / n * th, w[2] / n * th};
    }
  }
}
inline T3 gen_rot(vp::Src& s) { return rotation(gen_rotvec(s)); }
// positive determinant, moderate condition number; exact and nearly-repeated stretches are frequent
inline T3 gen_F(vp::Src& s, double spread = 3) {
  V3 st;
  switch (s.below(6)) {
    case 0: st = {1, 1, 1}; break;
    case 1: { LD a = s.logu(1 / spread, spread), b = s.logu(1 / spread, spread); st = {a, a, b}; break; }
    case 2: { LD a = s.logu(1 / spread, spread); st = {a, a, a}; break; }
    case 3: { LD e = s.logu(1e-14, 1e-2); st = {1 + e * s.usym(1), 1 + e * s.usym(1), 1 + e * s.usym(1)}; break; }
    default: st = {s.logu(1 / spread, spread), s.logu(1 / spread, spread), s.logu(1 / spread, spread)};
  }
  for (int k = s.below(3); k-- > 0;) std::swap(st[k], st[k + 1]);
  T3 d = t3zero();
  for (int i = 0; i < 3; ++i) d[i][i] = st[i];
  T3 q = gen_rot(s), p = gen_rot(s);
  return rounded(mul(p, mul(d, q)));
}
// a magnitude in any system of units: mostly an ordinary one, at times a very small or large one
inline double any_units(vp::Src& s, double lo, double hi, double least, double most) {
  switch (s.below(6)) {
    case 0: case 1: return 1;
    case 2: return s.logu(least, most);
    default: return s.logu(lo, hi);
  }
}
inline Hex gen_hex(vp::Src& s, double& size, double far = 4) {
  size = any_units(s, 1e-3, 1e3, 1e-12, 1e9);
  double w = s.chance(1, 4) ? 0 : s.uniform(0, 0.35);
  T3 A = s.chance(1, 3) ? eye() : gen_F(s, 2.5);
  V3 c = {s.sym(far) * size, s.sym(far) * size, s.sym(far) * size};
  Hex h;
  for (int n = 0; n < 8; ++n) {
    V3 p;
    for (int d = 0; d < 3; ++d) p[d] = 0.5L * HS[n][d] + (w > 0 ? s.usym(w) : 0.0);
    V3 y = mv(A, p);
    for (int d = 0; d < 3; ++d) h[n][d] = (double)(c[d] + size * y[d]);
  }
  return h;
}
inline void put_hex(const Hex& h, double* x) { for (int n = 0; n < 8; ++n) for (int d = 0; d < 3; ++d) x[3 * n + d] = (double)h[n][d]; }
inline Mat gen_mat(vp::Src& s) {
  Mat m;
  m.neo = s.flip();
  m.K = s.chance(1, 5) ? s.logu(1e-12, 1e20) : s.logu(1e2, 1e12);
  m.G = m.K * s.logu(0.01, 2.0);
  m.rho = s.chance(1, 5) ? s.logu(1e-21, 1e13) : s.logu(1e-3, 1e4);
  m.K = (double)m.K; m.G = (double)m.G; m.rho = (double)m.rho;
  return m;
}
namespace std {
inline std::ostream& operator<<(std::ostream& o, const T3& t) {
  for (int i = 0; i < 3; ++i) o << (i ? "; " : "[") << (double)t[i][0] << " " << (double)t[i][1] << " " << (double)t[i][2];
  return o << "]";
}
inline std::ostream& operator<<(std::ostream& o, const Hex& h) { for (auto& p : h) o << "(" << (double)p[0] << " " << (double)p[1] << " " << (double)p[2] << ") "; return o; }
}  // namespace std
