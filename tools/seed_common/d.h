// small helpers of the demonstrations: box meshes in Exodus files, runs of the built program, results
#pragma once
#include <exodusII.h>
#include <sys/stat.h>
#include <unistd.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
struct Mesh {
  std::vector<double> x, y, z;
  std::vector<std::vector<int>> el;   // 0-based
  std::vector<int> blk;               // block id of each element
  std::map<int, std::vector<int>> ns; // node set id -> nodes (0-based)
  std::vector<int> nid, eid;
  std::set<int> extra_blocks;         // blocks to declare although they have no element here
  int add(int nx, int ny, int nz, double x0, double y0, double z0, double h, int block) {
    int o = x.size();
    auto id = [&](int i, int j, int k) { return o + i + (nx + 1) * (j + (ny + 1) * k); };
    for (int k = 0; k <= nz; ++k) for (int j = 0; j <= ny; ++j) for (int i = 0; i <= nx; ++i) { x.push_back(x0 + i * h); y.push_back(y0 + j * h); z.push_back(z0 + k * h); }
    for (int k = 0; k < nz; ++k) for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) {
      el.push_back({id(i, j, k), id(i + 1, j, k), id(i + 1, j + 1, k), id(i, j + 1, k), id(i, j, k + 1), id(i + 1, j, k + 1), id(i + 1, j + 1, k + 1), id(i, j + 1, k + 1)});
      blk.push_back(block);
    }
    return o;
  }
  void set(int id, std::function<bool(double, double, double)> f) { for (size_t n = 0; n < x.size(); ++n) if (f(x[n], y[n], z[n])) ns[id].push_back(n); }
  void write(const std::string& path) const {
    std::set<int> ids(blk.begin(), blk.end());
    ids.insert(extra_blocks.begin(), extra_blocks.end());
    int cpu = 8, io = 8, f = ex_create(path.c_str(), EX_CLOBBER, &cpu, &io);
    ex_put_init(f, "m", 3, x.size(), el.size(), ids.size(), ns.size(), 0);
    ex_put_coord(f, x.data(), y.data(), z.data());
    std::vector<int> emap;
    for (int b : ids) {
      std::vector<int> c;
      for (size_t e = 0; e < el.size(); ++e) if (blk[e] == b) { for (int n : el[e]) c.push_back(n + 1); emap.push_back(eid.empty() ? (int)e + 1 : eid[e]); }
      ex_put_block(f, EX_ELEM_BLOCK, b, "HEX", c.size() / 8, c.empty() ? 0 : 8, 0, 0, 0);
      ex_put_name(f, EX_ELEM_BLOCK, b, ("block_" + std::to_string(b)).c_str());
      if (!c.empty()) ex_put_conn(f, EX_ELEM_BLOCK, b, c.data(), 0, 0);
    }
    if (!eid.empty()) ex_put_id_map(f, EX_ELEM_MAP, emap.data());
    if (!nid.empty()) ex_put_id_map(f, EX_NODE_MAP, nid.data());
    for (auto& s : ns) {
      std::vector<int> c;
      for (int n : s.second) c.push_back(n + 1);
      ex_put_set_param(f, EX_NODE_SET, s.first, c.size(), 0);
      if (!c.empty()) ex_put_set(f, EX_NODE_SET, s.first, c.data(), 0);
      ex_put_name(f, EX_NODE_SET, s.first, ("nodelist_" + std::to_string(s.first)).c_str());
    }
    ex_close(f);
  }
};
struct Result {
  bool ok = false;
  std::vector<double> times;
  std::vector<int> nid, eid;
  std::vector<std::string> nv, ev;
  std::vector<std::map<std::string, std::vector<double>>> n;                  // [record][variable]
  std::vector<std::map<std::string, std::map<int, std::vector<double>>>> e;   // [record][variable][block id]
};
inline Result read(const std::string& path) {
  Result r;
  ex_opts(0);
  int cpu = 8, io = 0;
  float ver;
  int f = ex_open(path.c_str(), EX_READ, &cpu, &io, &ver);
  if (f < 0) return r;
  char t[MAX_LINE_LENGTH + 1];
  int dim, nn, ne, nb, nns, nss;
  ex_get_init(f, t, &dim, &nn, &ne, &nb, &nns, &nss);
  r.nid.resize(nn); r.eid.resize(ne);
  ex_get_id_map(f, EX_NODE_MAP, r.nid.data());
  ex_get_id_map(f, EX_ELEM_MAP, r.eid.data());
  std::vector<int> ids(nb), num(nb);
  ex_get_ids(f, EX_ELEM_BLOCK, ids.data());
  for (int b = 0; b < nb; ++b) { char ty[MAX_STR_LENGTH + 1]; int np, na, d1, d2; ex_get_block(f, EX_ELEM_BLOCK, ids[b], ty, &num[b], &np, &d1, &d2, &na); }
  int nt = ex_inquire_int(f, EX_INQ_TIME);
  r.times.resize(nt);
  if (nt) ex_get_all_times(f, r.times.data());
  auto names = [&](ex_entity_type ty, std::vector<std::string>& v) {
    int k = 0;
    ex_get_variable_param(f, ty, &k);
    for (int i = 1; i <= k; ++i) { char s[MAX_STR_LENGTH + 1]; ex_get_variable_name(f, ty, i, s); v.push_back(s); }
  };
  names(EX_NODAL, r.nv);
  names(EX_ELEM_BLOCK, r.ev);
  r.n.resize(nt); r.e.resize(nt);
  for (int s = 0; s < nt; ++s) {
    for (size_t v = 0; v < r.nv.size(); ++v) { auto& w = r.n[s][r.nv[v]]; w.resize(nn); ex_get_var(f, s + 1, EX_NODAL, v + 1, 1, nn, w.data()); }
    for (size_t v = 0; v < r.ev.size(); ++v) for (int b = 0; b < nb; ++b) if (num[b]) { auto& w = r.e[s][r.ev[v]][ids[b]]; w.resize(num[b]); ex_get_var(f, s + 1, EX_ELEM_BLOCK, v + 1, ids[b], num[b], w.data()); }
  }
  ex_close(f);
  r.ok = true;
  return r;
}
// runs the program on m.in (written here); np > 1: the mesh parts m.g.np.i must be there.  returns the exit status
inline int run(const std::string& deck, int np = 1, const std::string& options = "", const std::string& in = "m.in") {
  { std::ofstream o(in); o << deck; }
  std::string exe = getenv("NIMBLE_EXE");
  std::string cmd = np > 1 ? "timeout 60 mpirun --allow-run-as-root --oversubscribe -np " + std::to_string(np) + " " + exe + " " : "timeout 60 " + exe + " ";
  cmd += options + " " + in + " > out.txt 2>&1";
  return system(cmd.c_str());
}
#define NEED(c, ...) do { if (!(c)) { printf("WRONG: " __VA_ARGS__); printf("\n"); return 1; } } while (0)
inline bool near(double a, double b, double tol = 1e-9) { return std::fabs(a - b) <= tol * (1 + std::fabs(a) + std::fabs(b)); }
