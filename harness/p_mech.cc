// C04 tensor kernels, C05 constitutive response, C06 element, element parts of C07 and C08
#include "fe.h"
#include "nimble_utils.h"
#include "nimble_element.h"
#include "nimble_material.h"
#include "nimble_kokkos_defs.h"
#include <Kokkos_Core.hpp>
using namespace vp;
static const double EPS = 2.220446049250313e-16;

namespace {
typedef double D9[9];
typedef double D6[6];
T3 gen_any(Src& s) {  // arbitrary matrix, entries of mixed magnitude and exact zeros
  double m = any_units(s, 1e-6, 1e6, 1e-30, 1e30);
  T3 t;
  for (auto& r : t) for (auto& v : r) v = s.chance(1, 6) ? 0.0 : s.chance(1, 6) ? (double)s.range(-3, 3) : s.usym(m);
  return t;
}
T3 gen_symm(Src& s) { T3 t = gen_any(s); for (int i = 0; i < 3; ++i) for (int j = 0; j < i; ++j) t[i][j] = t[j][i]; return t; }
T3 absm(const T3& a) { T3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r[i][j] = fabsl(a[i][j]); return r; }
void full_is(const char* what, const double* got, const T3& want, const T3& bound, double k = 16) {
  for (int c = 0; c < 9; ++c) {
    LD w = want[FI[c]][FJ[c]], b = bound[FI[c]][FJ[c]];
    VP_REQUIRE(fabsl(got[c] - w) <= k * EPS * b, what << " component " << c << ": " << got[c] << ", expected " << (double)w);
  }
}
void sym_is(const char* what, const double* got, const T3& want, const T3& bound, double k = 16) {
  for (int c = 0; c < 6; ++c) {
    LD w = want[SI[c]][SJ[c]], b = bound[SI[c]][SJ[c]];
    VP_REQUIRE(fabsl(got[c] - w) <= k * EPS * b, what << " component " << c << ": " << got[c] << ", expected " << (double)w);
  }
}
void products(Src& s) {
  T3 A = gen_any(s), B = gen_any(s), S = gen_symm(s), R = s.flip() ? rounded(gen_rot(s)) : gen_any(s);
  double al = s.usym(10);
  D9 a, b, r, out;
  D6 sy, so;
  put_full(A, a); put_full(B, b); put_sym(S, sy); put_full(R, r);
  s.note() << "A=" << A << " B=" << B << " S=" << S << " R=" << R << " alpha=" << al;
  s.nontrivial(nrm(A) > 0 && nrm(B) > 0 && nrm(S) > 0);
  Mult_Full33_Full33(a, b, out); full_is("Mult_Full33_Full33", out, mul(A, B), mul(absm(A), absm(B)));
  Mult_Scalar_Full33_Full33(al, a, b, out); full_is("Mult_Scalar_Full33_Full33", out, sca(al, mul(A, B)), sca(fabs(al), mul(absm(A), absm(B))));
  Mult_Sym33_Full33(sy, a, out); full_is("Mult_Sym33_Full33", out, mul(S, A), mul(absm(S), absm(A)));
  Mult_Full33_Sym33_ReturnT(a, sy, out); full_is("Mult_Full33_Sym33_ReturnT", out, tr(mul(A, S)), tr(mul(absm(A), absm(S))));
  Square_Full33T_Full33(a, so); sym_is("Square_Full33T_Full33", so, mul(tr(A), A), mul(absm(tr(A)), absm(A)));
  Square_Full33_Full33T(a, so); sym_is("Square_Full33_Full33T", so, mul(A, tr(A)), mul(absm(A), absm(tr(A))));
  Rotate_Sym33_Using_Rtranspose_S_R(sy, r, so); sym_is("Rotate_Sym33", so, mul(tr(R), mul(S, R)), mul(absm(tr(R)), mul(absm(S), absm(R))));
  Unrotate_Sym33_Using_R_S_Rtranspose(sy, r, so); sym_is("Unrotate_Sym33", so, mul(R, mul(S, tr(R))), mul(absm(R), mul(absm(S), absm(tr(R)))));
  Mult_Scalar_Full33(al, a, out); full_is("Mult_Scalar_Full33", out, sca(al, A), sca(fabs(al), absm(A)));
  Sum_Full33_Full33(a, b, out); full_is("Sum_Full33_Full33", out, add(A, B), add(absm(A), absm(B)));
  Sum_Sym33_Full33(sy, b, out); full_is("Sum_Sym33_Full33", out, add(S, B), add(absm(S), absm(B)));
  SymPart_Full33(a, so); sym_is("SymPart_Full33", so, sca(0.5, add(A, tr(A))), add(absm(A), absm(tr(A))));
  SkewPart_Full33(a, out); full_is("SkewPart_Full33", out, sca(0.5, add(A, tr(A), -1)), add(absm(A), absm(tr(A))));
  SetEqual_Full33(a, out); full_is("SetEqual_Full33", out, A, A, 0);
  SetEqual_Sym33(sy, so); sym_is("SetEqual_Sym33", so, S, S, 0);
  Zero_Full33(out); full_is("Zero_Full33", out, t3zero(), t3zero());
  V3 u = {A[0][0], A[0][1], A[0][2]}, v = {B[0][0], B[1][0], B[2][0]}, w = cross(u, v);
  double du[3] = {(double)u[0], (double)u[1], (double)u[2]}, dv[3] = {(double)v[0], (double)v[1], (double)v[2]}, dw[3];
  CrossProduct(du, dv, dw);
  for (int i = 0; i < 3; ++i) VP_REQUIRE(fabsl(dw[i] - w[i]) <= 8 * EPS * vnorm(u) * vnorm(v), "CrossProduct component " << i << ": " << dw[i] << ", expected " << (double)w[i]);
  LD perm = 0;
  static const int P[6][3] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {0, 2, 1}, {2, 1, 0}, {1, 0, 2}};
  for (auto& p : P) perm += fabsl(A[0][p[0]] * A[1][p[1]] * A[2][p[2]]);
  VP_REQUIRE(fabsl(Determinant_Full33(a) - det(A)) <= 16 * EPS * perm, "Determinant_Full33 " << Determinant_Full33(a) << ", expected " << (double)det(A));
  VP_REQUIRE(near(Norm_Full33(a), (double)nrm(A), 8 * EPS, 0), "Norm_Full33");
  VP_REQUIRE(near(Norm_Sym33(sy), (double)nrm(S), 8 * EPS, 0), "Norm_Sym33");
  VP_REQUIRE(Minimum(du[0], dv[0]) == std::fmin(du[0], dv[0]), "Minimum");
  VP_REQUIRE(MultiplySign(du[0], dv[0]) == (dv[0] < 0 ? -du[0] : du[0]), "MultiplySign");
}
void inverses(Src& s) {
  double sc = any_units(s, 1e-6, 1e6, 1e-30, 1e30);
  T3 A;
  if (s.chance(1, 3)) {
    A = gen_any(s);
    if (det(A) < 0) std::swap(A[0], A[1]);
  } else A = gen_F(s, 30);
  A = rounded(sca(sc, A));
  LD d = det(A);
  if (!(d > 0)) {
    throw Discard();
  }
  T3 I = inv(A);
  LD cond = nrm(A) * nrm(I);
  if (cond > 1e5) throw Discard();
  s.note() << "A=" << A << " cond " << (double)cond;
  s.nontrivial(cond > 3.5);
  s.maxi("condition", (double)cond);
  D9 a, i;
  put_full(A, a);
  double dd = Invert_Full33(a, i);
  VP_REQUIRE(near(dd, (double)d, 64 * EPS * (double)cond * (double)cond, 0), "Invert_Full33 determinant " << dd << ", expected " << (double)d);
  LD tol = 64 * EPS * cond * cond * nrm(I);
  for (int c = 0; c < 9; ++c) VP_REQUIRE(fabsl(i[c] - I[FI[c]][FJ[c]]) <= tol, "Invert_Full33 component " << c << ": " << i[c] << ", expected " << (double)I[FI[c]][FJ[c]]);
  double m[3][3], mi[3][3];
  for (int p = 0; p < 3; ++p) for (int q = 0; q < 3; ++q) m[p][q] = (double)A[p][q];
  dd = Invert3x3(m, mi);
  VP_REQUIRE(near(dd, (double)d, 64 * EPS * (double)cond * (double)cond, 0), "Invert3x3 determinant");
  for (int p = 0; p < 3; ++p) for (int q = 0; q < 3; ++q) VP_REQUIRE(fabsl(mi[p][q] - I[p][q]) <= tol, "Invert3x3 (" << p << "," << q << "): " << mi[p][q] << ", expected " << (double)I[p][q]);
}
void eigen(Src& s) {
  T3 S;
  V3 ev;
  switch (s.below(5)) {
    case 0: S = gen_symm(s); break;
    case 1: { T3 d = t3zero(); for (int i = 0; i < 3; ++i) d[i][i] = s.flip() ? s.range(-3, 3) : s.usym(5); S = d; break; }
    default: {
      double m = any_units(s, 1e-6, 1e6, 1e-30, 1e30), e = s.logu(1e-12, 1.0);
      ev = {m * s.usym(1), m * s.usym(1), m * s.usym(1)};
      if (s.chance(1, 3)) ev[1] = ev[0];
      if (s.chance(1, 4)) ev[1] = ev[0] * (1 + e);
      if (s.chance(1, 5)) ev[2] = ev[0] * (1 - e);
      T3 d = t3zero(), q = gen_rot(s);
      for (int i = 0; i < 3; ++i) d[i][i] = ev[i];
      S = rounded(mul(q, mul(d, tr(q))));
      for (int i = 0; i < 3; ++i) for (int j = 0; j < i; ++j) S[i][j] = S[j][i];
    }
  }
  D6 sy;
  put_sym(S, sy);
  s.note() << "S=" << S;
  LD n = nrm(S);
  s.nontrivial(n > 0);
  double l[3], v[3][3];
  Eigen_Sym33_NonUnit(sy, l[0], l[1], l[2], v[0], v[1], v[2]);
  T3 rec = t3zero();
  for (int k = 0; k < 3; ++k) {
    LD nn = 0;
    for (int i = 0; i < 3; ++i) nn += (LD)v[k][i] * v[k][i];
    VP_REQUIRE(nn > 0 && std::isfinite((double)nn) && std::isfinite(l[k]), "eigenvector " << k << " is " << v[k][0] << " " << v[k][1] << " " << v[k][2] << ", eigenvalue " << l[k]);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) rec[i][j] += (LD)l[k] * v[k][i] * v[k][j] / nn;
    for (int m = 0; m < k; ++m) {
      LD a = 0, b = 0;
      for (int i = 0; i < 3; ++i) { a += (LD)v[k][i] * v[m][i]; b += (LD)v[m][i] * v[m][i]; }
      LD c = fabsl(a) / sqrtl(nn * b);
      s.maxi("eigenvector cosine", (double)c);
      VP_REQUIRE(c < 1e-6, "eigenvectors " << m << " and " << k << " are not orthogonal: cosine " << (double)c);
    }
  }
  LD err = nrm(add(rec, S, -1));
  s.maxi("reconstruction error", n > 0 ? (double)(err / n) : 0);
  VP_REQUIRE(err <= 1e-7 * n, "eigen-decomposition does not reconstruct: error " << (double)err << " of norm " << (double)n << ", eigenvalues " << l[0] << " " << l[1] << " " << l[2]);
}
LD polar_tol(const T3& F) { LD c = nrm(F) * nrm(inv(F)); return 1e-9L * c * c; }
void polar(Src& s) {
  T3 F = gen_F(s, 8), I = t3zero();
  double sc = s.chance(1, 2) ? 1 : s.logu(1e-3, 1e3);
  F = rounded(sca(sc, F));
  (void)I;
  s.note() << "F=" << F;
  D9 f, r, r2;
  D6 v, v2, lv;
  put_full(F, f);
  LD n = nrm(F);
  s.nontrivial(nrm(add(mul(F, tr(F)), eye(), -1)) > 1e-8);
  LD tol = polar_tol(F);
  for (int which = 0; which < 2; ++which) {
    const char* nm = which ? "Polar_Left_LogV_Lame" : "Polar_Decomp";
    T3 V, R;
    if (!which) { Polar_Decomp(f, v, r); V = get_sym(v); R = get_full(r); }
    else { Polar_Left_LogV_Lame(f, v2, r2, lv); V = get_sym(v2); R = get_full(r2); }
    for (auto& a : V) for (LD x : a) VP_REQUIRE(std::isfinite((double)x), nm << " stretch not finite");
    for (auto& a : R) for (LD x : a) VP_REQUIRE(std::isfinite((double)x), nm << " rotation not finite");
    LD e1 = nrm(add(mul(V, R), F, -1)) / n, e2 = nrm(add(mul(R, tr(R)), eye(), -1)), e3 = fabsl(det(R) - 1);
    T3 B = mul(F, tr(F));
    LD e4 = nrm(add(mul(V, V), B, -1)) / nrm(B);
    s.maxi("V R - F", (double)e1); s.maxi("R RT - I", (double)e2); s.maxi("V V - F FT", (double)e4);
    VP_REQUIRE(e1 <= tol, nm << ": V R differs from F by " << (double)e1);
    VP_REQUIRE(e2 <= tol && e3 <= tol, nm << ": R is not a proper rotation, error " << (double)e2 << " determinant error " << (double)e3);
    VP_REQUIRE(e4 <= tol, nm << ": V V differs from F FT by " << (double)e4);
    VP_REQUIRE(V[0][0] > 0 && V[0][0] * V[1][1] - V[0][1] * V[0][1] > 0 && det(V) > 0, nm << ": stretch is not positive definite");
  }
  // exp(log V) = V
  T3 L = get_sym(lv), sum = eye(), term = eye();
  for (int k = 1; k < 60; ++k) { term = sca(1.0L / k, mul(term, L)); sum = add(sum, term); }
  VP_REQUIRE(nrm(add(sum, get_sym(v2), -1)) <= tol * 10 * n, "exp of the returned log stretch is not the stretch: error " << (double)(nrm(add(sum, get_sym(v2), -1)) / n));
}
T3 skew(const V3& w) { T3 k = t3zero(); k[0][1] = -w[2]; k[0][2] = w[1]; k[1][0] = w[2]; k[1][2] = -w[0]; k[2][0] = -w[1]; k[2][1] = w[0]; return k; }
void logs(Src& s) {
  V3 w = gen_rotvec(s);
  LD pi = acosl(-1.0L), th = vnorm(w);
  if (s.chance(1, 10) && th > 0) { for (auto& x : w) x = x / th * pi; th = pi; }
  else if (s.chance(1, 8) && th > 0) { LD d = s.logu(1e-6, 0.02); for (auto& x : w) x = x / th * (pi - d); th = vnorm(w); }   // nearly a half turn
  T3 R = rounded(rotation(w));
  s.note() << "rotation vector " << (double)w[0] << " " << (double)w[1] << " " << (double)w[2];
  bool atpi = fabsl(th - pi) < 1e-9L;
  if (!atpi && pi - th < 1e-6L) throw Discard();   // the quotient theta/sin(theta) is ill-conditioned there
  s.nontrivial(th > 0);
  s.label(atpi ? "half turn" : th == 0 ? "identity" : pi - th < 0.02L ? "nearly a half turn" : "general");
  D9 r, l;
  put_full(R, r);
  for (double& x : l) x = 12345;
  Log_Rotation(r, l);
  T3 L = get_full(l), W = skew(w);
  LD tol = atpi ? 1e-6L : 2e-7L * (th < 1e-3L ? 1 : 0) + 1e-12L + 2e-13L / (pi - th) + 1e-14L / ((pi - th) * (pi - th));   // angle from the trace: error eps/(pi-th) relative to pi-th
  LD e = nrm(add(L, W, -1));
  if (atpi) { LD e2 = nrm(add(L, W, 1)); if (e2 < e) e = e2; }
  VP_REQUIRE(e <= tol, "Log_Rotation differs from the rotation vector by " << (double)e << ", got " << L << ", expected " << W);
  if (atpi) {
    for (double& x : l) x = 12345;
    Log_Rotation_Pi(r, l);
    L = get_full(l);
    e = std::fmin((double)nrm(add(L, W, 1)), (double)nrm(add(L, W, -1)));
    VP_REQUIRE(e <= 1e-6, "Log_Rotation_Pi differs by " << (double)e);
  }
}
void bch(Src& s) {
  double m = s.chance(1, 3) ? s.logu(1e-6, 1) : 0.3;
  T3 X = t3zero(), Y = t3zero();
  bool commuting = s.chance(1, 6), symx = s.flip();
  for (auto& r : X) for (auto& v : r) v = s.usym(m);
  for (auto& r : Y) for (auto& v : r) v = s.usym(m);
  if (symx) for (int i = 0; i < 3; ++i) for (int j = 0; j < i; ++j) X[i][j] = X[j][i];
  if (commuting) Y = rounded(sca(s.range(-2, 2), X));
  s.note() << "X=" << X << " Y=" << Y;
  s.nontrivial(!commuting);
  auto C = [](const T3& a, const T3& b) { return add(mul(a, b), mul(b, a), -1); };
  T3 xy = C(X, Y);
  T3 want = add(add(add(add(X, Y), xy, 0.5L), add(C(X, xy), C(Y, xy), -1), 1.0L / 12), C(Y, C(X, xy)), -1.0L / 24);
  D9 x, y, out;
  put_full(X, x); put_full(Y, y);
  LD a = nrm(X) + nrm(Y), tol = 64 * EPS * (a + a * a + a * a * a + a * a * a * a);
  BCH(x, y, out);
  VP_REQUIRE(nrm(add(get_full(out), want, -1)) <= tol, "BCH differs from its commutator series by " << (double)nrm(add(get_full(out), want, -1)) << ": " << get_full(out) << " vs " << want);
  if (symx) {
    D6 sx;
    put_sym(X, sx);
    BCH_Sym33_Full33(sx, y, out);
    VP_REQUIRE(nrm(add(get_full(out), want, -1)) <= tol, "BCH_Sym33_Full33 differs from its commutator series");
  }
  if (a < 0.2L) {
    // exp(bch) = exp(X) exp(Y) up to fifth order
    auto ex = [](const T3& A) { T3 r = eye(), t = eye(); for (int k = 1; k < 30; ++k) { t = sca(1.0L / k, mul(t, A)); r = add(r, t); } return r; };
    LD e = nrm(add(ex(get_full(out)), mul(ex(X), ex(Y)), -1));
    VP_REQUIRE(e <= powl(a, 5) + 64 * EPS, "exp(BCH) differs from exp(X)exp(Y) by " << (double)e);
  }
}

// ---------------------------------------------------------------- C05
struct NH : nimble::NeohookeanMaterial {
  using nimble::NeohookeanMaterial::NeohookeanMaterial;
  void view(const double* f, double* s) const {
    nimble::Viewify<1, const double> nul, fv(f, 9);
    const nimble::Material& m = *this;
    (void)m;
    GetStress(0, 0, nul, fv, nul, nimble::Viewify<1>(s, 6));
  }
};
struct EL : nimble::ElasticMaterial {
  using nimble::ElasticMaterial::ElasticMaterial;
  void view(const double* f, double* s) const {
    nimble::Viewify<1, const double> nul, fv(f, 9);
    GetStress(0, 0, nul, fv, nul, nimble::Viewify<1>(s, 6));
  }
};
struct Pair {
  std::unique_ptr<NH> nh;
  std::unique_ptr<EL> el;
  Mat m;
  nimble::Material& mat() { return m.neo ? (nimble::Material&)*nh : (nimble::Material&)*el; }
  void view(const double* f, double* s) const { if (m.neo) nh->view(f, s); else el->view(f, s); }
  explicit Pair(const Mat& mm) : m(mm) {
    std::map<std::string, double> d = {{"density", (double)m.rho}, {"bulk_modulus", (double)m.K}, {"shear_modulus", (double)m.G}};
    nimble::MaterialParameters p(m.neo ? "neohookean" : "elastic", {}, d, 0);
    if (m.neo) nh.reset(new NH(p)); else el.reset(new EL(p));
  }
  void raw(int n, const double* f, double* s) {
    static double pad[64];
    std::vector<double> fn(9 * n, 1e30), sn(6 * n, 1e30);
    mat().GetStress(0, n, 0.0, 0.1, fn.data(), f, sn.data(), s, pad, pad, *(nimble::DataManager*)pad, false);
  }
  T3 stress(const T3& F) { D9 f; D6 s; put_full(F, f); raw(1, f, s); return get_sym(s); }
};
LD stress_scale(const Mat& m, const T3& F) {
  if (!m.neo) return (m.K + 2 * m.G) * (nrm(F) + 2);
  LD J = det(F);
  return m.K * (J + 1 / J) + m.G * (nrm(F) * nrm(F) / powl(J, 5.0L / 3) + 1);
}
LD ftol(const T3& F) { LD c = nrm(F) * nrm(inv(F)); return 1e-10L * c * c; }
T3 gen_Fd(Src& s) { return gen_F(s, 3); }
void constitutive(Src& s) {
  Mat m = gen_mat(s);
  Pair p(m);
  T3 F = gen_Fd(s), Q = rounded(gen_rot(s)), want = cauchy(m, F);
  s.note() << (m.neo ? "neohookean" : "elastic") << " K=" << (double)m.K << " G=" << (double)m.G << " F=" << F << " Q=" << Q;
  s.label(m.neo ? "neohookean" : "elastic");
  s.nontrivial(nrm(add(mul(F, tr(F)), eye(), -1)) > 1e-6);
  LD sc = stress_scale(m, F), tol = (m.neo ? ftol(F) : 64 * EPS) * sc;
  T3 S = p.stress(F);
  LD e = nrm(add(S, want, -1));
  s.maxi("relative stress error", (double)(e / sc));
  VP_REQUIRE(e <= tol, "stress " << S << ", expected " << want);
  // stress-free at rest and, for the finite-strain law, after any rotation
  LD s0 = nrm(p.stress(eye()));
  VP_REQUIRE(s0 <= 1e-12L * (m.K + m.G), "stress at the undeformed state: " << (double)s0);
  T3 L;
  if (m.neo) {
    VP_REQUIRE(nrm(p.stress(Q)) <= 1e-9L * (m.K + m.G), "stress under a pure rotation: " << (double)nrm(p.stress(Q)));
    T3 a = p.stress(rounded(mul(Q, F))), b = mul(Q, mul(S, tr(Q)));
    VP_REQUIRE(nrm(add(a, b, -1)) <= 4 * tol + 1e-13L * sc, "not objective: " << a << " vs " << b);
    a = p.stress(rounded(mul(F, Q)));
    VP_REQUIRE(nrm(add(a, S, -1)) <= 4 * tol + 1e-13L * sc, "not isotropic: " << a << " vs " << S);
    // derivative of the stored energy: P = J sigma F^-T
    T3 P = sca(det(F), mul(S, tr(inv(F))));
    LD h = 1e-5L * nrm(F);
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j) {
        T3 A = F, B = F;
        A[i][j] += h; B[i][j] -= h;
        LD d = (energy(m, A) - energy(m, B)) / (2 * h);
        LD ps = sc * det(F) * nrm(inv(F));
        VP_REQUIRE(fabsl(d - P[i][j]) <= (1e-7L * powl(nrm(F) * nrm(inv(F)), 3) + ftol(F)) * ps, "stress is not the energy gradient at (" << i << "," << j << "): " << (double)P[i][j] << " vs " << (double)d);
      }
  }
  // linear limit, both laws: sigma = 2 G dev(e) + K tr(e)
  T3 H;
  double h = s.logu(1e-7, 1e-4);
  for (auto& r : H) for (auto& v : r) v = h * s.usym(1);
  T3 G = rounded(add(eye(), H)), lin = cauchy(Mat{false, m.K, m.G, m.rho}, G), got = p.stress(G);
  LD le = nrm(add(got, lin, -1));
  LD hh = nrm(H);
  VP_REQUIRE(le <= (20 * hh * hh + 1e-11L) * (m.K + 2 * m.G), "small-strain stress " << got << " is not the linear elastic one " << lin);
}
void points(Src& s) {
  Mat m = gen_mat(s);
  Pair p(m);
  int n = (int)s.range(1, 12);
  std::vector<double> f(9 * n), st(6 * n + 12, -777.25);
  for (int i = 0; i < n; ++i) put_full(gen_Fd(s), &f[9 * i]);
  s.note() << (m.neo ? "neohookean" : "elastic") << " K=" << (double)m.K << " G=" << (double)m.G << " points " << n;
  s.nontrivial(n > 1);
  std::vector<double> f0 = f;
  p.raw(n, f.data(), &st[6]);
  VP_REQUIRE(f == f0, "the deformation gradient was changed");
  for (int i = 0; i < 6; ++i) VP_REQUIRE(st[i] == -777.25 && st[6 * n + 6 + i] == -777.25, "stress written outside the " << n << " points");
  for (int i = 0; i < n; ++i) {
    double one[6], vw[6];
    T3 Fi = get_full(&f[9 * i]);
    double at = (double)((m.neo ? ftol(Fi) : 64 * EPS) * stress_scale(m, Fi));  // different roundings only
    p.raw(1, &f[9 * i], one);
    p.view(&f[9 * i], vw);
    for (int c = 0; c < 6; ++c) {
      VP_REQUIRE(near(st[6 + 6 * i + c], one[c], 1e-12, at), "point " << i << " of " << n << " component " << c << ": " << st[6 + 6 * i + c] << ", alone " << one[c]);
      VP_REQUIRE(near(vw[c], one[c], 1e-12, at), "view and raw-array stress differ: " << vw[c] << " vs " << one[c]);
    }
    // strided view flavour
    int nv = std::min(n, 8);
    nimble_kokkos::DeviceFullTensorIntPtView fv("f", 3);
    nimble_kokkos::DeviceSymTensorIntPtView sv("s", 3);
    for (int e = 0; e < 3; ++e)
      for (int q = 0; q < nv; ++q) {
        for (int c = 0; c < 9; ++c) fv(e, q, c) = f[9 * q + c];
        for (int c = 0; c < 6; ++c) sv(e, q, c) = -777.25;
      }
    if (i == 0) {
      for (int q = 0; q < nv; ++q) {
        auto F1 = Kokkos::subview(fv, 1, q, Kokkos::ALL());
        auto S1 = Kokkos::subview(sv, 1, q, Kokkos::ALL());
        nimble::Material::DeviceElemState a, b;
        p.mat().GetStress(0.0, 0.1, F1, F1, S1, S1, a, b);
      }
      for (int q = 0; q < nv; ++q)
        for (int c = 0; c < 6; ++c) {
          VP_REQUIRE(near(sv(1, q, c), st[6 + 6 * q + c], 1e-12, (double)((m.neo ? ftol(get_full(&f[9 * q])) : 64 * EPS) * stress_scale(m, get_full(&f[9 * q])))), "device-view stress at point " << q << " component " << c << ": " << sv(1, q, c) << " vs " << st[6 + 6 * q + c]);
          VP_REQUIRE(sv(0, q, c) == -777.25 && sv(2, q, c) == -777.25, "device-view stress written to another element");
        }
    }
  }
  // tangent: derivative of the small-strain law, every point alike
  std::vector<double> t(36 * n + 2, -777.25);
  p.mat().GetTangent(n, &t[1]);
  VP_REQUIRE(t[0] == -777.25 && t[36 * n + 1] == -777.25, "tangent written outside its points");
  for (int i = 0; i < n; ++i)
    for (int a = 0; a < 6; ++a)
      for (int b = 0; b < 6; ++b) {
        T3 E = t3zero();
        if (b < 3) E[b][b] = 1; else E[SI[b]][SJ[b]] = E[SJ[b]][SI[b]] = 0.5;   // engineering shear
        T3 sg = add(sca(2 * m.G, E), eye(), (m.K - 2 * m.G / 3) * trace(E));
        double w = (double)sg[SI[a]][SJ[a]], g = t[1 + 36 * i + 6 * a + b];
        VP_REQUIRE(near(g, w, 1e-14, (double)(1e-14L * (m.K + m.G))), "tangent point " << i << " (" << a << "," << b << "): " << g << ", expected " << w);
      }
  VP_REQUIRE(p.mat().NumStateVariables() == 0, "state variables");
}

// ---------------------------------------------------------------- C06
struct KHex {  // the same element stored as element 1 of 3 in device views
  nimble_kokkos::DeviceVectorNodeGatheredView X{"X", 3}, U{"U", 3}, Fo{"Fo", 3};
  nimble_kokkos::DeviceFullTensorIntPtView F{"F", 3};
  nimble_kokkos::DeviceSymTensorIntPtView S{"S", 3};
};
std::array<V3, 8> get8(const double* f) { std::array<V3, 8> r; for (int n = 0; n < 8; ++n) for (int d = 0; d < 3; ++d) r[n][d] = f[3 * n + d]; return r; }
LD hdiam(const Hex& h) { LD d = 0; for (auto& a : h) for (auto& b : h) d = std::max(d, vnorm(vsub(a, b))); return d; }
LD hfar(const Hex& h) { LD d = 0; for (auto& a : h) d = std::max(d, vnorm(a)); return d; }
LD hcond(const Hex& h) { LD c = 0; for (int q = 0; q < 8; ++q) { T3 j = jac(h, gauss(q)); c = std::max(c, nrm(j) * nrm(inv(j))); } return c; }
void kinematics(Src& s) {
  double size;
  Hex X = gen_hex(s, size);
  if (!hexok(X)) throw Discard();
  Hex x;
  T3 F0 = eye();
  bool affine = s.flip();
  F0 = gen_F(s, 2.5);
  V3 c = {s.sym(3) * size, s.sym(3) * size, s.sym(3) * size};
  for (int n = 0; n < 8; ++n) {
    V3 y = vadd(mv(F0, X[n]), c);
    for (int d = 0; d < 3; ++d) x[n][d] = (double)(y[d] + (affine ? 0 : 0.1 * size * s.usym(1)));
  }
  s.note() << "X=" << X << " x=" << x << (affine ? " affine F=" : " F0=") << F0;
  s.label(affine ? "affine" : "general");
  s.nontrivial(nrm(add(F0, eye(), -1)) > 1e-6);
  double xd[24], xc[24], f[72 + 2];
  put_hex(X, xd); put_hex(x, xc);
  f[0] = f[73] = -3.5;
  nimble::HexElement el;
  VP_REQUIRE(el.Dim() == 3 && el.NumNodesPerElement() == 8 && el.NumIntegrationPointsPerElement() == 8, "element sizes");
  el.ComputeDeformationGradients(xd, xc, f + 1);
  VP_REQUIRE(f[0] == -3.5 && f[73] == -3.5, "written outside");
  LD cond = hcond(X), tol = 1e-13L * cond * (1 + (hfar(X) + hfar(x)) / hdiam(X));
  KHex k;
  for (int e = 0; e < 3; ++e) for (int n = 0; n < 8; ++n) for (int d = 0; d < 3; ++d) { k.X(e, n, d) = e == 1 ? xd[3 * n + d] : 7 * n + d; k.U(e, n, d) = e == 1 ? xc[3 * n + d] - xd[3 * n + d] : 0.0; }
  for (int e = 0; e < 3; ++e) for (int q = 0; q < 8; ++q) for (int cc = 0; cc < 9; ++cc) k.F(e, q, cc) = -3.5;
  el.ComputeDeformationGradients(Kokkos::subview(k.X, 1, Kokkos::ALL(), Kokkos::ALL()), Kokkos::subview(k.U, 1, Kokkos::ALL(), Kokkos::ALL()), Kokkos::subview(k.F, 1, Kokkos::ALL(), Kokkos::ALL()));
  for (int q = 0; q < 8; ++q) {
    T3 want = affine ? F0 : defgrad(X, x, gauss(q)), got = get_full(f + 1 + 9 * q), gk;
    double buf[9];
    for (int cc = 0; cc < 9; ++cc) { buf[cc] = k.F(1, q, cc); VP_REQUIRE(k.F(0, q, cc) == -3.5 && k.F(2, q, cc) == -3.5, "device view: other element written"); }
    gk = get_full(buf);
    LD e = nrm(add(got, want, -1)) / nrm(want);
    s.maxi("F error / tolerance", (double)(e / tol));
    VP_REQUIRE(e <= tol, "deformation gradient at point " << q << ": " << got << ", expected " << want);
    VP_REQUIRE(nrm(add(gk, want, -1)) <= tol * nrm(want), "device deformation gradient at point " << q << ": " << gk << ", expected " << want);
  }
}
void elforces(Src& s) {
  double size;
  Hex x = gen_hex(s, size);
  if (!hexok(x)) throw Discard();
  std::array<T3, 8> sg;
  double m = any_units(s, 1e-3, 1e9, 1e-30, 1e30), st[48], f[26], xd[24];
  bool uniform = s.chance(1, 3);
  for (int q = 0; q < 8; ++q) {
    if (uniform && q) sg[q] = sg[0];
    else { for (int i = 0; i < 3; ++i) for (int j = 0; j <= i; ++j) sg[q][i][j] = sg[q][j][i] = s.sym(m); }
    put_sym(sg[q], st + 6 * q);
  }
  put_hex(x, xd);
  s.note() << "x=" << x << " stress scale " << m << (uniform ? " uniform" : "");
  s.nontrivial();
  nimble::HexElement el;
  f[0] = f[25] = -3.5;
  el.ComputeNodalForces(xd, st, f + 1);
  VP_REQUIRE(f[0] == -3.5 && f[25] == -3.5, "force written outside");
  auto want = forces(x, sg), got = get8(f + 1);
  LD D = hdiam(x), sc = 0, cond = hcond(x);
  for (auto& t : sg) sc = std::max(sc, nrm(t));
  sc *= D * D;
  LD far = 1 + hfar(x) / D, tol = 1e-12L * sc * cond * far + 1e-300L;
  V3 R = {0, 0, 0}, M = {0, 0, 0}, o = {s.usym(2) * size, s.usym(2) * size, s.usym(2) * size};
  for (int n = 0; n < 8; ++n) {
    LD e = vnorm(vsub(got[n], want[n]));
    s.maxi("force error / tolerance", (double)(e / tol));
    VP_REQUIRE(e <= tol, "force at node " << n << ": " << (double)got[n][0] << " " << (double)got[n][1] << " " << (double)got[n][2] << ", expected " << (double)want[n][0] << " " << (double)want[n][1] << " " << (double)want[n][2]);
    R = vadd(R, got[n]);
    M = vadd(M, cross(vsub(x[n], o), got[n]));
  }
  VP_REQUIRE(vnorm(R) <= tol, "nodal forces have a resultant: " << (double)R[0] << " " << (double)R[1] << " " << (double)R[2]);
  VP_REQUIRE(vnorm(M) <= tol * (D + hfar(x) + vnorm(o)), "nodal forces have a moment: " << (double)M[0] << " " << (double)M[1] << " " << (double)M[2]);
  // virtual work of an arbitrary virtual displacement
  LD wf = 0, ws = 0, us = 0;
  std::array<V3, 8> u;
  for (auto& v : u) { v = {s.usym(1), s.usym(1), s.usym(1)}; us += vnorm(v); }
  for (int n = 0; n < 8; ++n) wf += dot(u[n], got[n]);
  for (int q = 0; q < 8; ++q) {
    auto g = grads(x, gauss(q));
    LD J = det(jac(x, gauss(q)));
    for (int n = 0; n < 8; ++n) for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) ws += J * sg[q][i][j] * u[n][i] * g[n][j];
  }
  VP_REQUIRE(fabsl(wf + ws) <= tol * us, "virtual work " << (double)wf << " is not minus the stress work " << (double)ws);
  // device flavour, with the coordinates split into reference and displacement
  KHex k;
  for (int e = 0; e < 3; ++e)
    for (int n = 0; n < 8; ++n)
      for (int d = 0; d < 3; ++d) {
        double du = s.usym(0.5) * size;
        k.X(e, n, d) = e == 1 ? xd[3 * n + d] - du : HS[n][d];
        k.U(e, n, d) = e == 1 ? xd[3 * n + d] - k.X(e, n, d) : 0;
        k.Fo(e, n, d) = -3.5;
      }
  for (int e = 0; e < 3; ++e) for (int q = 0; q < 8; ++q) for (int c = 0; c < 6; ++c) k.S(e, q, c) = st[6 * q + c];
  auto A = Kokkos::ALL();
  el.ComputeNodalForces(Kokkos::subview(k.X, 1, A, A), Kokkos::subview(k.U, 1, A, A), Kokkos::subview(k.S, 1, A, A), Kokkos::subview(k.Fo, 1, A, A));
  for (int n = 0; n < 8; ++n)
    for (int d = 0; d < 3; ++d) {
      VP_REQUIRE(fabsl(k.Fo(1, n, d) - want[n][d]) <= 4 * tol, "device force at node " << n << "," << d << ": " << k.Fo(1, n, d) << ", expected " << (double)want[n][d]);
      VP_REQUIRE(k.Fo(0, n, d) == -3.5 && k.Fo(2, n, d) == -3.5, "device force of another element written");
    }
  // rotating element and stress rotates the forces
  T3 Q = rounded(gen_rot(s));
  double xr[24], sr[48], fr[24];
  for (int n = 0; n < 8; ++n) { V3 y = mv(Q, x[n]); for (int d = 0; d < 3; ++d) xr[3 * n + d] = (double)y[d]; }
  for (int q = 0; q < 8; ++q) put_sym(mul(Q, mul(sg[q], tr(Q))), sr + 6 * q);
  el.ComputeNodalForces(xr, sr, fr);
  for (int n = 0; n < 8; ++n) {
    V3 y = mv(Q, got[n]), z = {fr[3 * n], fr[3 * n + 1], fr[3 * n + 2]};
    VP_REQUIRE(vnorm(vsub(y, z)) <= 8 * tol, "forces do not rotate with the element at node " << n);
  }
}
void hyperelastic(Src& s) {  // nodal forces are minus the gradient of the stored energy
  double size;
  Hex X = gen_hex(s, size, 1), x;
  if (!hexok(X)) throw Discard();
  Mat m = gen_mat(s);
  m.neo = true;
  Pair p(m);
  T3 F0 = gen_F(s, 1.6);
  for (int n = 0; n < 8; ++n) { V3 y = mv(F0, X[n]); for (int d = 0; d < 3; ++d) x[n][d] = (double)(y[d] + 0.08 * size * s.usym(1)); }
  LD jmin = 1e9;
  for (int q = 0; q < 8; ++q) jmin = std::min(jmin, det(defgrad(X, x, gauss(q))));
  if (!(jmin > 0.2L)) throw Discard();
  s.note() << "X=" << X << " x=" << x << " K=" << (double)m.K << " G=" << (double)m.G;
  s.nontrivial();
  double xd[24], xc[24], F[72], st[48], f[24];
  put_hex(X, xd); put_hex(x, xc);
  nimble::HexElement el;
  el.ComputeDeformationGradients(xd, xc, F);
  p.raw(8, F, st);
  el.ComputeNodalForces(xc, st, f);
  auto E = [&](const Hex& y) { LD e = 0; for (int q = 0; q < 8; ++q) e += det(jac(X, gauss(q))) * energy(m, defgrad(X, y, gauss(q))); return e; };
  LD D = hdiam(X), h = 1e-5L * D, sc = (m.K + m.G) * D * D * powl(hcond(X), 3);
  for (int n = 0; n < 8; ++n)
    for (int d = 0; d < 3; ++d) {
      Hex a = x, b = x;
      a[n][d] += h; b[n][d] -= h;
      LD g = (E(a) - E(b)) / (2 * h);
      s.maxi("energy gradient error", (double)(fabsl(g + f[3 * n + d]) / sc));
      VP_REQUIRE(fabsl(g + f[3 * n + d]) <= 1e-6L * sc, "force " << f[3 * n + d] << " at node " << n << "," << d << " is not minus the energy gradient " << (double)g);
    }
}
void averages(Src& s) {
  double size;
  Hex x = gen_hex(s, size);
  if (!hexok(x)) throw Discard();
  int nq = (int)s.range(0, 12);
  std::vector<double> q(8 * nq + 1), av(nq + 2, -3.5);
  double xd[24], vol = -1;
  for (auto& v : q) v = s.sym(100);
  put_hex(x, xd);
  s.note() << "x=" << x << " quantities " << nq;
  s.nontrivial(nq > 0);
  nimble::HexElement el;
  el.ComputeVolumeAverage(xd, nq, q.data(), vol, &av[1]);
  LD V = hexvolume2(x), D = hdiam(x), tol = 1e-12L * (1 + hfar(x) / D) * hcond(x);
  VP_REQUIRE(av[0] == -3.5 && av[nq + 1] == -3.5, "average written outside");
  VP_REQUIRE(fabsl(vol - V) <= tol * D * D * D, "volume " << vol << ", exact " << (double)V);
  for (int i = 0; i < nq; ++i) {
    LD a = 0;
    for (int k = 0; k < 8; ++k) a += det(jac(x, gauss(k))) * q[k * nq + i];
    VP_REQUIRE(fabsl(av[1 + i] - a / V) <= 100 * tol * D * D * D / V, "average of quantity " << i << ": " << av[1 + i] << ", expected " << (double)(a / V));
  }
  // device flavours
  KHex k;
  nimble_kokkos::DeviceScalarElemView ve("v", 3);
  nimble_kokkos::DeviceSymTensorElemView se("s", 3);
  nimble_kokkos::DeviceFullTensorElemView fe("f", 3);
  for (int e = 0; e < 3; ++e) {
    ve(e) = -3.5;
    for (int c = 0; c < 6; ++c) se(e, c) = -3.5;
    for (int c = 0; c < 9; ++c) fe(e, c) = -3.5;
    for (int n = 0; n < 8; ++n)
      for (int d = 0; d < 3; ++d) {
        double du = s.usym(0.5) * size;
        k.X(e, n, d) = e == 1 ? xd[3 * n + d] - du : HS[n][d];
        k.U(e, n, d) = e == 1 ? xd[3 * n + d] - k.X(e, n, d) : 0;
      }
    for (int p = 0; p < 8; ++p) {
      for (int c = 0; c < 9; ++c) k.F(e, p, c) = s.sym(10);
      for (int c = 0; c < 6; ++c) k.S(e, p, c) = s.sym(10);
    }
  }
  auto A = Kokkos::ALL();
  auto X1 = Kokkos::subview(k.X, 1, A, A), U1 = Kokkos::subview(k.U, 1, A, A);
  el.ComputeVolume(X1, U1, Kokkos::subview(ve, 1));
  el.ComputeVolumeAverageSymTensor(X1, U1, Kokkos::subview(k.S, 1, A, A), Kokkos::subview(se, 1, A));
  el.ComputeVolumeAverageFullTensor(X1, U1, Kokkos::subview(k.F, 1, A, A), Kokkos::subview(fe, 1, A));
  VP_REQUIRE(fabsl(ve.data()[1] - V) <= 4 * tol * D * D * D, "device volume " << ve.data()[1] << ", exact " << (double)V);
  VP_REQUIRE(ve.data()[0] == -3.5 && ve.data()[2] == -3.5, "device volume of another element written");
  for (int c = 0; c < 9; ++c) {
    LD a = 0, b = 0;
    for (int p = 0; p < 8; ++p) { LD J = det(jac(x, gauss(p))); a += J * k.F(1, p, c); if (c < 6) b += J * k.S(1, p, c); }
    VP_REQUIRE(fabsl(fe(1, c) - a / V) <= 100 * tol * D * D * D / V, "device full-tensor average component " << c << ": " << fe(1, c) << ", expected " << (double)(a / V));
    if (c < 6) VP_REQUIRE(fabsl(se(1, c) - b / V) <= 100 * tol * D * D * D / V, "device symmetric-tensor average component " << c << ": " << se(1, c) << ", expected " << (double)(b / V));
    VP_REQUIRE(fe(0, c) == -3.5 && fe(2, c) == -3.5 && (c > 5 || (se(0, c) == -3.5 && se(2, c) == -3.5)), "average of another element written");
  }
}
// ---------------------------------------------------------------- C07 (element)
void mass(Src& s) {
  double size;
  Hex X = gen_hex(s, size);
  if (!hexok(X)) throw Discard();
  double rho = any_units(s, 1e-4, 1e4, 1e-30, 1e30), xd[24], m[10];
  put_hex(X, xd);
  s.note() << "X=" << X << " density " << rho;
  s.nontrivial();
  nimble::HexElement el;
  m[0] = m[9] = -3.5;
  el.ComputeLumpedMass(rho, xd, m + 1);
  VP_REQUIRE(m[0] == -3.5 && m[9] == -3.5, "mass written outside");
  nimble_kokkos::DeviceVectorNodeGatheredView kx("X", 3);
  nimble_kokkos::DeviceScalarNodeGatheredView km("m", 3);
  for (int e = 0; e < 3; ++e) for (int n = 0; n < 8; ++n) { km(e, n) = -3.5; for (int d = 0; d < 3; ++d) kx(e, n, d) = e == 1 ? xd[3 * n + d] : HS[n][d]; }
  el.ComputeLumpedMass(rho, Kokkos::subview(kx, 1, Kokkos::ALL(), Kokkos::ALL()), Kokkos::subview(km, 1, Kokkos::ALL()));
  LD V = hexvolume2(X), D = hdiam(X), tol = 1e-12L * rho * D * D * D * (1 + hfar(X) / D) * hcond(X), sum = 0;
  for (int n = 0; n < 8; ++n) {
    LD w = 0;
    for (int q = 0; q < 8; ++q) w += rho * det(jac(X, gauss(q))) * shape(n, gauss(q));
    sum += m[1 + n];
    VP_REQUIRE(m[1 + n] > 0, "mass of node " << n << " is " << m[1 + n]);
    VP_REQUIRE(fabsl(m[1 + n] - w) <= tol, "mass of node " << n << ": " << m[1 + n] << ", consistent row sum " << (double)w);
    VP_REQUIRE(fabsl(km(1, n) - w) <= tol, "device mass of node " << n << ": " << km(1, n) << ", expected " << (double)w);
    VP_REQUIRE(km(0, n) == -3.5 && km(2, n) == -3.5, "device mass of another element written");
  }
  VP_REQUIRE(fabsl(sum - rho * V) <= 8 * tol, "element mass " << (double)sum << ", density times volume " << (double)(rho * V));
}
void charlength(Src& s) {
  double size;
  Hex X = gen_hex(s, size, s.flip() ? 4 : 50);
  if (!hexok(X)) throw Discard();
  double xd[24];
  put_hex(X, xd);
  LD best = 1e300L, lo[3], hi[3];
  for (int a = 0; a < 8; ++a) for (int b = 0; b < a; ++b) best = std::min(best, vnorm(vsub(X[a], X[b])));
  for (int d = 0; d < 3; ++d) { lo[d] = hi[d] = X[0][d]; for (auto& p : X) { lo[d] = std::min(lo[d], p[d]); hi[d] = std::max(hi[d], p[d]); } best = std::min(best, hi[d] - lo[d]); }
  s.note() << "X=" << X;
  s.nontrivial();
  s.label(hi[0] < 0 || hi[1] < 0 || hi[2] < 0 ? "entirely negative along an axis" : "other placement");
  nimble::HexElement el;
  double c = el.ComputeCharacteristicLength(xd);
  LD far = hfar(X);
  VP_REQUIRE(fabsl(c - best) <= 1e-14L * (far + hdiam(X)) * 8, "characteristic length " << c << ", expected " << (double)best);
  // the order of the nodes does not matter; scaling scales it
  auto pm = s.perm(8);
  double y[24], sc = s.logu(1e-3, 1e3);
  for (int n = 0; n < 8; ++n) for (int d = 0; d < 3; ++d) y[3 * n + d] = xd[3 * pm[n] + d] * sc;
  VP_REQUIRE(near(el.ComputeCharacteristicLength(y), c * sc, 1e-13 * (1 + (double)(far / best)), 0), "characteristic length of the scaled, reordered element");
}
// ---------------------------------------------------------------- C08 (element)
void tangent(Src& s) {
  double size;
  Hex x = gen_hex(s, size);
  if (!hexok(x)) throw Discard();
  Mat m = gen_mat(s);
  m.neo = false;
  Pair p(m);
  double xd[24], C[36 * 8];
  std::vector<double> K(578, -3.5);
  put_hex(x, xd);
  p.mat().GetTangent(8, C);
  bool vary = s.chance(1, 3);
  std::array<LD, 8> w;
  for (int q = 0; q < 8; ++q) { w[q] = vary ? s.uniform(0.5, 2) : 1; for (int i = 0; i < 36; ++i) C[36 * q + i] *= (double)w[q]; }
  s.note() << "x=" << x << " K=" << (double)m.K << " G=" << (double)m.G << (vary ? " per-point moduli" : "");
  s.nontrivial();
  nimble::HexElement el;
  el.ComputeTangent(xd, C, &K[1]);
  VP_REQUIRE(K[0] == -3.5 && K[577] == -3.5, "tangent written outside");
  double* k = &K[1];
  LD D = hdiam(x), cond = hcond(x), sc = (m.K + 2 * m.G) * D * cond * cond, tol = 1e-12L * sc * (1 + hfar(x) / D);
  auto at = [&](int i, int j) { return (LD)k[24 * i + j]; };
  auto R = hex_tangent(x, m, &w);
  for (int i = 0; i < 24; ++i)
    for (int j = 0; j < 24; ++j) {
      VP_REQUIRE(fabsl(at(i, j) - R[i][j]) <= tol, "tangent (" << i << "," << j << "): " << (double)at(i, j) << ", expected " << (double)R[i][j]);
      VP_REQUIRE(fabsl(at(i, j) - at(j, i)) <= tol, "tangent not symmetric at " << i << "," << j);
    }
  V3 tv = {s.usym(1), s.usym(1), s.usym(1)}, wv = {s.usym(1), s.usym(1), s.usym(1)};
  for (int rigid = 0; rigid < 2; ++rigid)
    for (int i = 0; i < 24; ++i) {
      LD y = 0;
      for (int n = 0; n < 8; ++n) { V3 u = rigid ? cross(wv, vsub(x[n], x[0])) : tv; for (int d = 0; d < 3; ++d) y += at(i, 3 * n + d) * u[d]; }
      VP_REQUIRE(fabsl(y) <= 50 * tol * (rigid ? D : 1), (rigid ? "rotation" : "translation") << " produces force " << (double)y << " at unknown " << i);
    }
  std::array<V3, 8> u;
  LD e = 0, un = 0;
  for (auto& v : u) { v = {s.usym(1), s.usym(1), s.usym(1)}; un += dot(v, v); }
  for (int i = 0; i < 24; ++i) for (int j = 0; j < 24; ++j) e += at(i, j) * u[i / 3][i % 3] * u[j / 3][j % 3];
  VP_REQUIRE(e >= -50 * tol * un, "strain energy " << (double)e << " is negative");
  if (!vary) {
    // derivative of NimbleSM's own internal force about the undeformed state
    double h = 1e-6 * (double)D;
    int col = (int)s.below(24);
    double a[24], b[24], F[72], st[48], fa[24], fb[24];
    for (int i = 0; i < 24; ++i) a[i] = b[i] = xd[i];
    a[col] += h; b[col] -= h;
    el.ComputeDeformationGradients(xd, a, F); p.raw(8, F, st); el.ComputeNodalForces(a, st, fa);
    el.ComputeDeformationGradients(xd, b, F); p.raw(8, F, st); el.ComputeNodalForces(b, st, fb);
    for (int i = 0; i < 24; ++i) {
      LD d = -((LD)fa[i] - fb[i]) / ((LD)a[col] - b[col]);
      s.maxi("force derivative error", (double)(fabsl(d - at(i, col)) / sc));
      VP_REQUIRE(fabsl(d - at(i, col)) <= 1e-7L * sc * cond * (1 + hfar(x) / D), "internal force derivative (" << i << "," << col << ") " << (double)d << ", tangent " << (double)at(i, col));
    }
  }
}
}  // namespace
int main(int argc, char** argv) {
  Hooks h;
  h.init = [] { int n = 1; char a[] = "p_mech"; char* v[] = {a, nullptr}; Kokkos::initialize(n, v); };
  h.fini = [] { Kokkos::finalize(); };
  return vp_main(argc, argv, {
    {"C04", "products", products, 1000000, 12000000, "random 3x3 matrices (mixed magnitudes, zeros): every product, sum, copy, part, norm and determinant kernel against long double; non-trivial = no operand zero", {}, 30},
    {"C04", "inverses", inverses, 1000000, 12000000, "matrices with positive determinant and condition up to 1e5: inverse and determinant against long double; non-trivial = condition above 3.5", {}, 30},
    {"C04", "eigen", eigen, 1200000, 14400000, "symmetric matrices with distinct, equal and nearly equal eigenvalues: orthogonal vectors that reconstruct the input; non-trivial = non-zero", {}, 30},
    {"C04", "polar", polar, 1000000, 12000000, "deformations with positive determinant: V R = F, R proper rotation, V symmetric positive definite, exp(log V) = V; non-trivial = not a rotation", {}, 30},
    {"C04", "rotation-log", logs, 1000000, 12000000, "rotation vectors up to and including half turns: logarithm inverts the exponential; non-trivial = not the identity", {}, 30},
    {"C04", "bch", bch, 700000, 8400000, "pairs of matrices: the series equals its commutator form and exp(bch)=exp(x)exp(y) to fifth order; non-trivial = not commuting", {}, 30},
    {"C05", "law", constitutive, 1500000, 18000000, "random moduli, deformation and rotation: closed-form stress, rest state, objectivity, isotropy, energy gradient, linear limit; non-trivial = not a rotation", {}, 30},
    {"C05", "points", points, 400000, 4800000, "1 to 12 integration points with independent deformations through raw-array, view and device-view flavours; non-trivial = several points", {}, 30},
    {"C06", "kinematics", kinematics, 250000, 3000000, "admissible random hexahedra (scaled, sheared, displaced, perturbed) under affine and general motion; non-trivial = not the identity", {}, 30},
    {"C06", "forces", elforces, 150000, 1800000, "random stress fields on random hexahedra: resultant, moment, virtual work, rotation, device flavour; all non-trivial", {}, 30},
    {"C06", "energy-gradient", hyperelastic, 40000, 480000, "neo-Hookean element in a random deformation: forces equal minus the gradient of the stored energy; all non-trivial", {}, 30},
    {"C06", "averages", averages, 200000, 2400000, "volume (exact, by surface integral) and volume averages in raw and device flavours; non-trivial = some quantity", {}, 30},
    {"C07", "element-mass", mass, 500000, 6000000, "random hexahedra and densities: consistent row sums, positivity, total; all non-trivial", {}, 30},
    {"C07", "characteristic-length", charlength, 600000, 7200000, "random hexahedra anywhere in space: minimum over node distances and box sides; all non-trivial", {}, 30},
    {"C08", "element-tangent", tangent, 300000, 3600000, "random hexahedra and moduli: independent assembly, symmetry, rigid modes, energy, derivative of the internal force; all non-trivial", {}, 30},
  }, h);
}
