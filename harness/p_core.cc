// C09 sparse storage and solvers; C11 labels; C28 index and view helpers (no mesh needed)
#include "vp.h"
#include <mpi.h>
#include <algorithm>
#include <array>
#include <cfloat>
#include <functional>
#include <iostream>
#include <numeric>
#include "nimble_macros.h"
#include "nimble_utils.h"
#include "nimble_linear_solver.h"
#include "nimble_data_utils.h"
#include "nimble_view.h"
#include "nimble.quanta.h"
#include "nimble.quanta.arrayview.h"
#include "nimble.mpi.reduction_utils.h"
using namespace vp;
typedef long double LD;
namespace {
typedef std::vector<std::vector<LD>> Dense;

// ---------------------------------------------------------------- C09
struct Pattern { int n; std::vector<int> i, j; };
Pattern gen_pattern(Src& s, bool diag) {
  Pattern p;
  p.n = (int)s.size(1, 24);
  int dens = (int)s.range(1, 8);
  bool sym = diag || s.flip();
  std::vector<std::vector<char>> on(p.n, std::vector<char>(p.n, 0));
  for (int a = 0; a < p.n; ++a)
    for (int b = 0; b < p.n; ++b)
      if ((diag && a == b) || s.chance(dens, 16)) { on[a][b] = 1; if (sym) on[b][a] = 1; }
  on[p.n - 1][p.n - 1] = 1;  // the largest row index fixes the size
  for (int a = 0; a < p.n; ++a)
    for (int b = 0; b < p.n; ++b) if (on[a][b]) { p.i.push_back(a); p.j.push_back(b); }
  return p;
}
void storage(Src& s) {
  Pattern p = gen_pattern(s, false);
  int n = p.n, nnz = (int)p.i.size();
  std::vector<std::map<int, double>> ref(n);
  nimble::CRSMatrixContainer A;
  if (s.flip()) {  // storage used before for another pattern
    Pattern q = gen_pattern(s, false);
    A.AllocateNonzeros(q.i, q.j);
    A.SetAllValues(77.0);
  }
  A.AllocateNonzeros(p.i, p.j);
  for (int k = 0; k < nnz; ++k) ref[p.i[k]][p.j[k]] = 0.0;
  s.note() << "n=" << n << " entries";
  for (int k = 0; k < nnz; ++k) s.note() << " " << p.i[k] << "," << p.j[k];
  s.note() << " ops";
  bool empty_row = false;
  for (auto& r : ref) empty_row = empty_row || r.empty();
  s.label(empty_row ? "row without entries" : "every row has entries");
  s.nontrivial(nnz > 1);
  VP_REQUIRE(A.NumRows() == n && (int)A.NumNonzeros() == nnz, "sizes");
  int ops = (int)s.size(1, 30);
  for (int o = 0; o < ops; ++o) {
    int w = (int)s.below(6), k = (int)s.below(nnz), r = (int)s.below(n);
    double v = s.sym(9);
    s.note() << " " << w << ":" << k << "/" << r << "=" << v;
    if (w == 0) { A(p.i[k], p.j[k]) = v; ref[p.i[k]][p.j[k]] = v; }
    else if (w == 1) { A(p.i[k], p.j[k]) += v; ref[p.i[k]][p.j[k]] += v; }
    else if (w == 2) { A.SetRowValues(r, v); for (auto& e : ref[r]) e.second = v; }
    else if (w == 3) { A.SetColumnValues(r, v); for (auto& row : ref) { auto it = row.find(r); if (it != row.end()) it->second = v; } }
    else if (w == 4 && s.chance(1, 4)) { A.SetAllValues(v); for (auto& row : ref) for (auto& e : row) e.second = v; }
    else {
      std::vector<double> x(n), y(n + 2, -5.5);
      for (auto& e : x) e = s.sym(3);
      A.MatVec(x.data(), y.data() + 1);
      VP_REQUIRE(y[0] == -5.5 && y[n + 1] == -5.5, "MatVec wrote outside its result");
      for (int a = 0; a < n; ++a) {
        LD t = 0, m = 0;
        for (auto& e : ref[a]) { t += (LD)e.second * x[e.first]; m += fabsl((LD)e.second * x[e.first]); }
        VP_REQUIRE(fabsl(y[a + 1] - t) <= 1e-13L * m, "MatVec row " << a << ": " << y[a + 1] << ", expected " << (double)t);
      }
    }
    const nimble::CRSMatrixContainer& C = A;
    for (int a = 0; a < n; ++a)
      for (int b = 0; b < n; ++b) {
        auto it = ref[a].find(b);
        double got = 0;
        bool threw = false;
        try { got = C(a, b); } catch (std::invalid_argument&) { threw = true; }
        if (it == ref[a].end()) VP_REQUIRE(threw || got == 0, "entry " << a << "," << b << " was never stored but reads " << got);
        else VP_REQUIRE(!threw && got == it->second, "entry " << a << "," << b << (threw ? " not found" : "") << " reads " << got << ", stored " << it->second);
      }
  }
}
void dense_storage(Src& s) {
  int n = (int)s.size(1, 12);
  std::vector<int> idx;
  for (int i = 0; i < n; ++i) if (i == n - 1 || s.flip()) idx.push_back(i);
  nimble::MatrixContainer A;
  A.AllocateNonzeros(idx, idx);
  Dense R(n, std::vector<LD>(n, 0));
  s.note() << "dense n=" << n;
  s.nontrivial(n > 1);
  VP_REQUIRE((int)A.NumNonzeros() == n * n, "size");
  for (int o = 0; o < 12; ++o) {
    int w = (int)s.below(5), a = (int)s.below(n), b = (int)s.below(n);
    double v = s.sym(9);
    if (w < 2) { A(a, b) = v; R[a][b] = v; }
    else if (w == 2) { A.SetRowValues(a, v); for (auto& e : R[a]) e = v; }
    else if (w == 3) { A.SetColumnValues(b, v); for (auto& r : R) r[b] = v; }
    else { A.SetAllValues(v); for (auto& r : R) for (auto& e : r) e = v; }
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) VP_REQUIRE(A(i, j) == (double)R[i][j], "entry " << i << "," << j << ": " << A(i, j) << ", stored " << (double)R[i][j]);
  }
}
void cg(Src& s) {
  // one scratch object over several systems of changing size
  nimble::CGScratchSpace scratch;
  int systems = (int)s.range(1, 3);
  for (int q = 0; q < systems; ++q) {
    Pattern p = gen_pattern(s, true);
    int n = p.n;
    Dense A(n, std::vector<LD>(n, 0));
    double scale = s.chance(1, 4) ? s.logu(1e-20, 1e20) : s.logu(1e-3, 1e6);
    // strictly diagonally dominant and symmetric: positive definite
    for (size_t k = 0; k < p.i.size(); ++k) if (p.i[k] < p.j[k]) A[p.i[k]][p.j[k]] = A[p.j[k]][p.i[k]] = (double)(s.usym(1.0) * scale);
    double margin = s.pick({1.0, 0.1, 0.01});
    for (int a = 0; a < n; ++a) { LD t = 0; for (int b = 0; b < n; ++b) if (a != b) t += fabsl(A[a][b]); A[a][a] = (double)(t + margin * scale * (0.1 + s.unit())); }
    nimble::CRSMatrixContainer M;
    M.AllocateNonzeros(p.i, p.j);
    for (size_t k = 0; k < p.i.size(); ++k) M(p.i[k], p.j[k]) = (double)A[p.i[k]][p.j[k]];
    std::vector<double> x(n), b(n), x0;
    for (auto& v : b) v = s.sym(10) * (s.flip() ? scale : 1.0);
    if (s.flip()) for (auto& v : x) v = s.sym(10);
    double tol = s.pick({1e-16, 1e-12, 1e-20, 1e-8, 1e-24});
    int maxit = s.chance(1, 6) ? (int)s.range(1, n) : 1000;
    s.note() << "n=" << n << " tol " << tol << " maxit " << maxit << " margin " << margin << " scale " << scale << "; ";
    s.nontrivial(n > 1);
    x0 = x;
    auto bb = b;
    auto res = [&](const std::vector<double>& y, LD& mag) {
      LD d = 0;
      mag = 0;
      for (int a = 0; a < n; ++a) {
        LD r = b[a], m = fabsl(b[a]);
        for (int c = 0; c < n; ++c) { r -= A[a][c] * y[c]; m += fabsl(A[a][c] * y[c]); }
        d += r * r / A[a][a];
        mag += m * m / A[a][a];
      }
      return d;
    };
    LD m0, m1, d0 = res(x0, m0);
    int it = -1;
    bool ok = nimble::CG_SolveSystem(M, b.data(), scratch, x.data(), it, tol, maxit);
    LD d1 = res(x, m1);
    VP_REQUIRE(b == bb, "right-hand side changed");
    for (size_t k = 0; k < p.i.size(); ++k) VP_REQUIRE(M(p.i[k], p.j[k]) == (double)A[p.i[k]][p.j[k]], "matrix changed");
    VP_REQUIRE(it >= 0 && it <= maxit, "iteration count " << it);
    // the recursive residual drifts from the true one by rounding in proportion to the largest iterate
    LD floor_ = 1e-24L * (m0 + m1) * (1 + it);
    s.maxi("true residual over allowed", (double)(d1 / (tol * d0 + floor_ + 1e-300L)));
    if (ok) VP_REQUIRE(d1 <= 4 * tol * d0 + floor_, "reported converged, but the residual is " << (double)sqrtl(d1) << " from " << (double)sqrtl(d0) << " with tolerance " << std::sqrt(tol) << " after " << it << " iterations");
    else {
      VP_REQUIRE(it == maxit, "reported failure after " << it << " of " << maxit << " iterations");
      VP_REQUIRE(!(d1 < 0.25L * tol * d0 - floor_), "reported failure, but the residual " << (double)sqrtl(d1) << " meets the tolerance");
    }
    if (maxit == 1000) VP_REQUIRE(ok, "did not converge in 1000 iterations, n=" << n);
    // n steps suffice in exact arithmetic
    if (maxit == 1000 && tol >= 1e-16 && margin >= 1) VP_REQUIRE(it <= 2 * n + 3, it << " iterations for " << n << " unknowns of a well-conditioned system");
    s.label(ok ? "converged" : "not converged");
  }
}
struct Mx { int n; std::vector<double> a; double& operator()(int i, int j) { return a[i * n + j]; } double operator()(int i, int j) const { return a[i * n + j]; } };
void lu(Src& s) {
  int n = (int)s.size(1, 14);
  Dense A(n, std::vector<LD>(n, 0));
  bool zeros = s.flip();
  double scale = s.chance(1, 4) ? s.logu(1e-20, 1e20) : s.logu(1e-6, 1e6);
  for (auto& r : A) for (auto& e : r) e = zeros && s.chance(1, 3) ? 0.0 : (double)(s.usym(1) * scale);
  if (s.chance(1, 3)) for (auto& r : A) { double f = s.logu(1e-4, 1e4); for (auto& e : r) e = (double)(e * f); }
  bool sing = s.chance(1, 6);
  if (sing) {
    // exactly singular also in floating point: a zero row, a zero column, or two equal rows of integers
    int w = (int)s.below(3), a = (int)s.below(n), b = (int)s.below(n);
    if (n == 1) w = 0;
    if (w == 0) for (auto& e : A[a]) e = 0;
    else if (w == 1) for (auto& r : A) r[a] = 0;
    else {
      for (auto& r : A) for (auto& e : r) e = (LD)s.range(-1, 1);
      for (auto& r : A) r[a] = 0;
      if (a != b) for (auto& r : A) r[b] = 0;
    }
  }
  std::vector<double> x(n), b(n);
  for (auto& v : b) v = s.sym(10);
  s.note() << "n=" << n << (sing ? " singular" : "") << " A=";
  for (auto& r : A) { for (auto e : r) s.note() << (double)e << " "; s.note() << "; "; }
  // reference: Gaussian elimination with full pivoting in extended precision, for rank and condition
  Dense W = A;
  std::vector<LD> piv;
  Dense I(n, std::vector<LD>(n, 0));
  for (int i = 0; i < n; ++i) I[i][i] = 1;
  bool rank_def = false;
  LD big0 = 0;
  for (auto& r : A) for (auto e : r) big0 = std::max(big0, fabsl(e));
  std::vector<int> rows(n), cols(n);
  {
    Dense G = A;
    std::vector<char> ur(n, 0), uc(n, 0);
    for (int k = 0; k < n && !rank_def; ++k) {
      int pi = -1, pj = -1;
      LD m = 0;
      for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (!ur[i] && !uc[j] && fabsl(G[i][j]) > m) { m = fabsl(G[i][j]); pi = i; pj = j; }
      if (pi < 0) { rank_def = true; break; }
      ur[pi] = uc[pj] = 1;
      LD pv = G[pi][pj];
      for (int j = 0; j < n; ++j) { G[pi][j] /= pv; I[pi][j] /= pv; }
      for (int i = 0; i < n; ++i) if (i != pi) {
        LD f = G[i][pj];
        if (f == 0) continue;
        for (int j = 0; j < n; ++j) { G[i][j] -= f * G[pi][j]; I[i][j] -= f * I[pi][j]; }
      }
      rows[pj] = pi;
    }
  }
  Mx M{n, std::vector<double>(n * n)};
  std::vector<int> piv2(n, -1);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) M(i, j) = (double)A[i][j];
  if (sing) {
    s.label("singular");
    s.nontrivial();
    x = b;
    VP_REQUIRE(in_child([&] { ::LU_SolveSystem(n, M, x.data(), piv2.data()); }) != 0, "a singular system was solved without a report");
    return;
  }
  if (rank_def) throw Discard();
  LD na = 0, ni = 0;
  for (int i = 0; i < n; ++i) { LD t = 0, u = 0; for (int j = 0; j < n; ++j) { t += fabsl(A[i][j]); u += fabsl(I[rows[i]][j]); } na = std::max(na, t); ni = std::max(ni, u); }
  LD cond = na * ni;
  if (!(cond < 1e10L)) throw Discard();
  s.nontrivial(n > 1);
  s.maxi("condition", (double)cond);
  x = b;
  ::LU_SolveSystem(n, M, x.data(), piv2.data());
  for (int i = 0; i < n; ++i) VP_REQUIRE(piv2[i] >= i && piv2[i] < n, "pivot " << piv2[i] << " of column " << i);
  LD nx = 0, rr = 0;
  std::vector<LD> sol(n, 0);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) sol[i] += I[rows[i]][j] * b[j];
  LD ns = 0, err = 0;
  for (int i = 0; i < n; ++i) { ns = std::max(ns, fabsl(sol[i])); err = std::max(err, fabsl(sol[i] - x[i])); VP_REQUIRE(std::isfinite(x[i]), "solution not finite"); }
  s.maxi("relative error / (eps cond)", (double)(ns > 0 ? err / ns / (DBL_EPSILON * cond) : 0));
  VP_REQUIRE(err <= 100 * n * DBL_EPSILON * cond * ns, "solution error " << (double)err << " of " << (double)ns << " at condition " << (double)cond);
  // a second right-hand side with the same factors
  std::vector<double> y(n);
  for (auto& v : y) v = s.sym(10);
  auto b2 = y;
  ::LU_Solve(n, M, y.data(), piv2.data());
  LD n2 = 0, e2 = 0;
  for (int i = 0; i < n; ++i) { LD t = 0; for (int j = 0; j < n; ++j) t += I[rows[i]][j] * b2[j]; n2 = std::max(n2, fabsl(t)); e2 = std::max(e2, fabsl(t - y[i])); }
  VP_REQUIRE(e2 <= 100 * n * DBL_EPSILON * cond * n2, "second solve with the same factors: error " << (double)e2 << " of " << (double)n2);
  (void)nx; (void)rr; (void)W; (void)piv; (void)cols; (void)big0;
}
// ---------------------------------------------------------------- C11 labels
const nimble::Length LENGTHS[] = {nimble::SCALAR, nimble::VECTOR, nimble::SYMMETRIC_TENSOR, nimble::FULL_TENSOR, nimble::LENGTH_1, nimble::LENGTH_2, nimble::LENGTH_7, nimble::LENGTH_9, nimble::LENGTH_13, nimble::LENGTH_20};
std::string gen_label(Src& s) {
  static const char* base[] = {"stress", "deformation_gradient", "displacement", "i", "ip", "ipt", "iptx", "ipt_id", "ipt_", "ipt_2x", "x_ipt01_y", "volume", "global_elem_id", "a1", "ipt1", "ipt12", "ip_t01"};
  if (s.flip()) return base[s.below(sizeof base / sizeof *base)];
  std::string l;
  long n = s.range(1, 12);
  for (long i = 0; i < n; ++i) l += "abipt_0123456789XYZ"[s.below(19)];
  return l;
}
// the documented prefix: "ipt", digits, underscore
bool prefixed(const std::string& l) {
  if (l.compare(0, 3, "ipt") != 0) return false;
  size_t k = 3;
  while (k < l.size() && isdigit((unsigned char)l[k])) ++k;
  return k > 3 && k < l.size() && l[k] == '_';
}
void labels(Src& s) {
  std::string l = gen_label(s);
  int dim = s.flip() ? 3 : 2;
  nimble::Length len = LENGTHS[s.below(10)];
  int n = s.chance(1, 3) ? (int)s.range(1, 5000) : (int)s.range(1, 27);
  s.note() << "label '" << l << "' length " << (int)len << " dim " << dim << " point " << n;
  s.nontrivial();
  static const std::map<int, std::vector<std::string>> suf[2] = {
      {{nimble::SCALAR, {""}}, {nimble::VECTOR, {"_x", "_y"}}, {nimble::SYMMETRIC_TENSOR, {"_xx", "_yy", "_xy"}}, {nimble::FULL_TENSOR, {"_xx", "_yy", "_xy", "_yx"}}},
      {{nimble::SCALAR, {""}}, {nimble::VECTOR, {"_x", "_y", "_z"}}, {nimble::SYMMETRIC_TENSOR, {"_xx", "_yy", "_zz", "_xy", "_yz", "_zx"}}, {nimble::FULL_TENSOR, {"_xx", "_yy", "_zz", "_xy", "_yz", "_zx", "_yx", "_zy", "_xz"}}}};
  std::vector<std::string> want;
  auto it = suf[dim - 2].find((int)len);
  if (it != suf[dim - 2].end()) for (auto& x : it->second) want.push_back(l + x);
  else for (int i = 1; i <= (int)len; ++i) want.push_back(l + "_" + std::to_string(i));
  VP_REQUIRE(nimble::LengthToInt(len, dim) == (int)want.size(), "LengthToInt gives " << nimble::LengthToInt(len, dim) << " components, " << want.size() << " expected");
  auto got = nimble::GetComponentLabels(l, len, dim);
  VP_REQUIRE(got.size() == want.size(), got.size() << " component labels, expected " << want.size());
  for (size_t i = 0; i < got.size(); ++i) VP_REQUIRE(got[i] == want[i], "component label " << i << " is " << got[i] << ", expected " << want[i]);
  VP_REQUIRE(std::set<std::string>(got.begin(), got.end()).size() == got.size(), "component labels are not unique");
  std::string num = std::to_string(n);
  if (num.size() == 1) num = "0" + num;
  std::string pl = nimble::AddIntegrationPointPrefix(l, n);
  VP_REQUIRE(pl == "ipt" + num + "_" + l, "AddIntegrationPointPrefix gives " << pl);
  VP_REQUIRE(nimble::HasIntegrationPointPrefix(pl), "prefix not recognised in " << pl);
  VP_REQUIRE(nimble::LabelToIntegrationPointNumber(pl) == n, "number read from " << pl << " is " << nimble::LabelToIntegrationPointNumber(pl));
  VP_REQUIRE(nimble::RemoveIntegrationPointPrefix(pl) == l, "prefix removed from " << pl << " gives " << nimble::RemoveIntegrationPointPrefix(pl));
  if (!prefixed(l)) {
    VP_REQUIRE(nimble::RemoveIntegrationPointPrefix(l) == l && !nimble::HasIntegrationPointPrefix(l), "label " << l << " has no prefix, but removing it gives " << nimble::RemoveIntegrationPointPrefix(l));
    s.label("plain label");
  }
  if (it != suf[dim - 2].end()) {
    for (size_t i = 0; i < want.size(); ++i) {
      std::string c = nimble::GetComponentLabel(l, len, dim, (int)i, n);
      VP_REQUIRE(c == "ipt" + num + "_" + want[i], "GetComponentLabel " << i << " is " << c << ", expected ipt" << num << "_" << want[i]);
    }
    if (len != nimble::SCALAR) {
      bool threw = false;
      try { nimble::GetComponentLabel(l, len, dim, (int)want.size(), n); } catch (std::invalid_argument&) { threw = true; }
      VP_REQUIRE(threw || (len == nimble::VECTOR && dim == 2), "component " << want.size() << " out of range was accepted");
    }
  }
  // lookup of a field's length among several fields, with and without prefix
  std::map<int, nimble::Field> fields;
  std::vector<std::string> names;
  int m = (int)s.range(1, 6), target = (int)s.below(m);
  for (int i = 0; i < m; ++i) {
    nimble::Field f;
    std::string nm = i == target ? l : gen_label(s) + "_" + std::to_string(i) + "q";
    if (prefixed(nm)) nm = "f" + nm;
    names.push_back(nm);
    f.id_ = i;
    f.label_ = s.flip() ? nimble::AddIntegrationPointPrefix(nm, (int)s.range(1, 30)) : nm;
    f.length_ = i == target ? len : LENGTHS[s.below(10)];
    fields[(int)s.below(1000) * 10 + i] = f;
  }
  std::string q = s.flip() ? nimble::AddIntegrationPointPrefix(names[target], n) : names[target];
  VP_REQUIRE(nimble::LabelToLength(q, fields, dim) == len, "LabelToLength of " << q);
  bool threw = false;
  try { nimble::LabelToLength("no_such_field", fields, dim); } catch (std::invalid_argument&) { threw = true; }
  VP_REQUIRE(threw, "unknown label was given a length");
}
// ---------------------------------------------------------------- C28 views and grouping
void views(Src& s) {
  int n = (int)s.size(0, 30), d = (int)s.range(1, 9), w = (int)s.below(3);
  s.note() << "entries " << n << " width " << d << " kind " << w;
  s.nontrivial(n > 1);
  std::vector<double> a(n * d + 2, -1.5), b(n * d + 2, 0), ref;
  for (auto& v : b) v = s.sym(5);
  double* p = a.data() + 1;
  double* q = b.data() + 1;
  auto guards = [&] { VP_REQUIRE(a[0] == -1.5 && a[n * d + 1] == -1.5, "view wrote outside its bounds"); };
  double al = s.sym(3);
  if (w == 0) {
    nimble::Viewify<1> x = s.flip() ? nimble::Viewify<1>(p, n * d) : nimble::Viewify<1>(p, {n * d}, {1});
    nimble::Viewify<1> y(q, n * d);
    const nimble::Viewify<1>& cx = x;
    VP_REQUIRE(x.size()[0] == n * d && x.data() == p && x.stride()[0] == 1, "view bounds");
    x.zero(); guards();
    for (int i = 0; i < n * d; ++i) VP_REQUIRE(p[i] == 0, "zero left entry " << i);
    x.copy(y); guards();
    for (int i = 0; i < n * d; ++i) VP_REQUIRE(p[i] == q[i] && x(i) == q[i] && cx(i) == q[i], "copy, entry " << i);
    x += al * y; guards();
    for (int i = 0; i < n * d; ++i) VP_REQUIRE(near(p[i], q[i] + al * q[i], 1e-14, 1e-14 * std::fabs(q[i])), "axpy, entry " << i);
    if (n * d) { int k = (int)s.below(n * d); x(k) = 42.25; guards(); for (int i = 0; i < n * d; ++i) VP_REQUIRE((p[i] == 42.25) == (i == k), "write to " << k << " hit " << i); }
    double dc = s.pick({0.0, 1.0, 0.5, -2.0}), rc = s.sym(2);
    std::vector<double> old(p, p + n * d);
    (al * y).assignTo(dc, rc, x); guards();
    for (int i = 0; i < n * d; ++i) VP_REQUIRE(near(p[i], dc * old[i] + rc * al * q[i], 1e-13, 1e-13 * (std::fabs(dc * old[i]) + std::fabs(rc * al * q[i]))), "assignTo, entry " << i << ": " << p[i] << ", expected " << dc * old[i] + rc * al * q[i]);
  } else if (w == 1) {
    nimble::Viewify<2> x(p, {n, d}, {d, 1}), y(q, {n, d}, {d, 1});
    const nimble::Viewify<2>& cx = x;
    VP_REQUIRE(x.size()[0] == n && x.size()[1] == d && x.stride()[0] == d && x.stride()[1] == 1, "view bounds");
    x.zero(); guards();
    for (int i = 0; i < n * d; ++i) VP_REQUIRE(p[i] == 0, "zero left entry " << i);
    for (int k = 0; k < 4 && n; ++k) {
      int i = (int)s.below(n), j = (int)s.below(d);
      x.zero();
      x(i, j) = 7.5; guards();
      for (int u = 0; u < n; ++u) for (int v = 0; v < d; ++v) VP_REQUIRE((p[u * d + v] == 7.5) == (u == i && v == j) && cx(u, v) == p[u * d + v], "write to " << i << "," << j << " hit " << u << "," << v);
    }
    x.copy(y); guards();
    x += al * y; guards();
    for (int i = 0; i < n * d; ++i) VP_REQUIRE(near(p[i], q[i] + al * q[i], 1e-14, 1e-14 * std::fabs(q[i])), "axpy, entry " << i);
    // transposed access through the strides
    nimble::Viewify<2> t(p, {d, n}, {1, d});
    for (int i = 0; i < n; ++i) for (int j = 0; j < d; ++j) VP_REQUIRE(t(j, i) == p[i * d + j], "strided access");
  } else {
    nimble::View<FieldEnum::Scalar> sc(n);
    nimble::View<FieldEnum::Vector> ve(n);
    nimble::View<FieldEnum::SymTensor> sy(n);
    nimble::View<FieldEnum::FullTensor> fu(n);
    auto ve2 = ve;
    VP_REQUIRE(sc.rank() == 1 && ve.rank() == 2 && fu.extent(1) == 9 && sy.extent(1) == 6 && ve.extent(1) == 3 && sc.extent(0) == n && fu.extent(0) == n, "view sizes");
    auto val = [](int k, int i, int j) { return 1000.0 * k + 10.0 * i + j; };
    for (int i = 0; i < n; ++i) { sc(i) = val(1, i, 0); for (int j = 0; j < 9; ++j) { if (j < 3) ve(i, j) = val(2, i, j); if (j < 6) sy(i, j) = val(3, i, j); fu(i, j) = val(4, i, j); } }
    for (int i = 0; i < n; ++i) { bool ok = sc(i) == val(1, i, 0); for (int j = 0; j < 9; ++j) ok = ok && (j > 2 || (ve(i, j) == val(2, i, j) && ve2(i, j) == ve(i, j))) && (j > 5 || sy(i, j) == val(3, i, j)) && fu(i, j) == val(4, i, j); VP_REQUIRE(ok, "values of entry " << i << " lost"); }
  }
}
void grouping(Src& s) {
  int n = (int)s.size(0, 40), k = (int)s.range(1, 5);
  std::vector<std::pair<std::vector<int>, int>> l;
  std::vector<std::pair<std::vector<int>, std::vector<int>>> want;
  for (int i = 0; i < n; ++i) {
    std::vector<int> key;
    if (i && s.flip()) key = l.back().first;
    else { long m = s.range(0, 3); for (long a = 0; a < m; ++a) key.push_back((int)s.below(k)); }
    l.push_back({key, (int)s.range(-50, 50)});
    if (want.empty() || want.back().first != key) want.push_back({key, {}});
    want.back().second.push_back(l.back().second);
    s.note() << "(" << key.size() << ":" << (key.empty() ? -1 : key[0]) << "," << l.back().second << ") ";
  }
  s.nontrivial(n > 1);
  auto got = nimble::GroupConsecutive(l);
  VP_REQUIRE(got.size() == want.size(), got.size() << " groups, expected " << want.size());
  for (size_t i = 0; i < got.size(); ++i) VP_REQUIRE(got[i] == want[i], "group " << i << " has " << got[i].second.size() << " values, expected " << want[i].second.size());
}
void arrayviews(Src& s) {
  using nimble::quanta::arrayview_t;
  int parts = (int)s.size(0, 10);
  std::vector<int> counts;
  int n = 0;
  for (int i = 0; i < parts; ++i) { counts.push_back((int)s.below(6)); n += counts.back(); }
  std::vector<int> v(n), orig;
  std::iota(v.begin(), v.end(), 100);
  orig = v;
  s.note() << "counts";
  for (int c : counts) s.note() << " " << c;
  s.nontrivial(n > 1);
  auto views = nimble::quanta::partition_into_arrayviews(v, counts);
  VP_REQUIRE((int)views.size() == parts, views.size() << " views, expected " << parts);
  int at = 0;
  for (int i = 0; i < parts; ++i) {
    VP_REQUIRE((int)views[i].size() == counts[i] && views[i].end() - views[i].begin() == counts[i], "view " << i << " has " << views[i].size() << " elements, expected " << counts[i]);
    for (int j = 0; j < counts[i]; ++j, ++at) VP_REQUIRE(views[i][j] == 100 + at && &views[i][j] == &v[at], "view " << i << " element " << j << " is " << views[i][j] << ", expected " << 100 + at);
  }
  if (n) {
    int a = (int)s.below(n), c = (int)s.below(n - a + 1);
    arrayview_t<int> all(v), sub = all.sub(a, c), w(v, a, c), x(v.data(), a, c), y(v.data(), v.data() + n);
    VP_REQUIRE((int)all.size() == n && (int)sub.size() == c && (int)w.size() == c && (int)x.size() == c, "sizes");
    VP_REQUIRE((int)y.size() == n, "view over a pointer range of " << n << " elements has size " << y.size());
    for (int i = 0; i < c; ++i) VP_REQUIRE(&sub[i] == &v[a + i] && &w[i] == &v[a + i] && &x[i] == &v[a + i] && all.const_sub(a, c)[i] == v[a + i], "sub view element " << i);
    std::vector<int> src(c), dst(c, 0);
    for (auto& e : src) e = (int)s.range(0, 99);
    sub.copy_from(src.begin());
    for (int i = 0; i < n; ++i) VP_REQUIRE(v[i] == (i >= a && i < a + c ? src[i - a] : orig[i]), "copy_from, element " << i);
    sub.copy_to(dst.begin());
    VP_REQUIRE(dst == src, "copy_to");
    std::vector<int> other(c, -3);
    sub.swap_with(other.begin());
    VP_REQUIRE(other == src, "swap_with");
    for (int i = 0; i < c; ++i) VP_REQUIRE(v[a + i] == -3, "swap_with");
    arrayview_t<int> e1(v, 0, 1), e2 = sub;
    swap(e1, e2);
    VP_REQUIRE((int)e1.size() == c && e2.size() == 1 && e2.begin() == v.data() && e1.begin() == v.data() + a, "swap of views");
    int k = (int)s.range(-5, 5);
    auto cnt = nimble::quanta::make_counter<int>(k);
    VP_REQUIRE(cnt() == k && cnt() == k + 1 && cnt.increment() == k + 2 && cnt.get_count() == k + 3, "counter");
    std::vector<int> m = v;
    nimble::quanta::remap(m, [](int t) { return 2 * t + 1; });
    for (int i = 0; i < n; ++i) VP_REQUIRE(m[i] == 2 * v[i] + 1, "remap");
    auto ix = nimble::quanta::make_indexer(v);
    auto ip = nimble::quanta::make_indexer(v.data());
    for (int i = 0; i < n; ++i) VP_REQUIRE(&ix(i) == &v[i] && &ip(i) == &v[i], "indexer");
    VP_REQUIRE((int)nimble::quanta::len(v) == n, "len");
  }
}
void strings(Src& s) {
  auto gen = [&] { std::string r; long n = s.size(0, 10); for (long i = 0; i < n; ++i) r += "ab_"[s.below(3)]; return r; };
  std::string a = gen(), b = s.chance(1, 3) ? a : s.flip() ? a + gen() : gen();
  s.note() << "'" << a << "' '" << b << "'";
  s.nontrivial(!a.empty());
  VP_REQUIRE(StringsAreEqual(a.c_str(), b.c_str()) == (a == b), "StringsAreEqual('" << a << "','" << b << "')");
  VP_REQUIRE(StringsAreEqual(b.c_str(), a.c_str()) == (a == b), "StringsAreEqual('" << b << "','" << a << "')");
  VP_REQUIRE((size_t)StringLength(a.c_str()) == a.size(), "StringLength('" << a << "') is " << StringLength(a.c_str()));
}
}  // namespace
int main(int argc, char** argv) {
  Hooks h;
  h.init = [] { MPI_Init(nullptr, nullptr); };
  h.fini = [] { MPI_Finalize(); };
  return vp_main(argc, argv, {
    {"C09", "sparse-storage", storage, 50000, 1000000, "random sorted sparsity patterns (rows without entries included, storage reused) under random writes, row/column settings and products against a map; non-trivial = several entries", {}, 30},
    {"C09", "dense-storage", dense_storage, 60000, 800000, "random operations on the dense matrix against an array; non-trivial = more than one row", {}, 30},
    {"C09", "conjugate-gradients", cg, 150000, 4000000, "sequences of sparse symmetric positive definite systems over one scratch space: reported convergence against the true residual; non-trivial = several unknowns", {}, 30},
    {"C09", "direct", lu, 200000, 8000000, "random systems with condition below 1e10 against extended-precision elimination with full pivoting, and exactly singular ones which must be reported; non-trivial = several unknowns", {}, 30},
    {"C11", "labels", labels, 3000000, 30000000, "random labels, lengths, dimensions and integration points against the documented component order and prefix form; all non-trivial", {}, 30},
    {"C28", "views", views, 1500000, 20000000, "dense views of random extents: element addressing, zero, copy, scaled addition with guard entries; non-trivial = several entries", {}, 30},
    {"C28", "grouping", grouping, 1500000, 20000000, "random key sequences with runs against a reference run-length grouping; non-trivial = several elements", {}, 30},
    {"C28", "array-views", arrayviews, 1500000, 20000000, "random count lists (zeros included) and sub-ranges against plain indexing; non-trivial = several elements", {}, 30},
    {"C28", "strings", strings, 1000000, 10000000, "string pairs (equal, prefixes, different) against std::string; non-trivial = non-empty", {}, 30},
  }, h);
}
