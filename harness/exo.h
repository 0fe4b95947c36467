// mesh files written, and result files read, with the Exodus C API only (independent of NimbleSM's reader and writer)
#pragma once
#include <exodusII.h>
#include <map>
#include <string>
#include <vector>
#include "vp.h"
struct EBlock { int id; std::string name, type; int nper; std::vector<int> conn; int n() const { return nper ? (int)conn.size() / nper : 0; } };
struct ESet { int id; std::string name; std::vector<int> a, b; std::vector<double> df; };
struct Exo {
  std::vector<double> x, y, z;
  std::vector<int> nid, eid;               // 1-based global ids (written as id maps unless empty)
  bool aux = false;                        // ids written as an auxiliary "original_global_id_map"
  bool plain_n = false, plain_e = false;   // ... except those of the nodes / elements
  std::vector<int> old_nid, old_eid;       // id maps beside the auxiliary ones, which take precedence
  std::vector<EBlock> blocks;              // conn 0-based
  std::vector<ESet> nsets, ssets;          // a: 0-based nodes / elements, b: sides
  std::string title = "mesh";
  int io = 8, mode = 0;
  int nn() const { return (int)x.size(); }
  int ne() const { int n = 0; for (auto& b : blocks) n += b.n(); return n; }
  // results
  std::vector<double> times;
  std::vector<std::string> nvars, evars, gvars;
  std::vector<std::vector<double>> gval;                                  // [step][var]
  std::vector<std::vector<std::vector<double>>> nval;                     // [step][var][node]
  std::vector<std::vector<std::map<int, std::vector<double>>>> evalv;     // [step][var][block id][element]
};
inline void exo_req(bool ok, const char* what) { if (!ok) throw vp::Failure{std::string("harness: exodus call failed: ") + what}; }
inline void exo_write(const Exo& m, const std::string& path) {
  ex_opts(0);
  int cpu = 8, io = m.io;
  int f = ex_create(path.c_str(), EX_CLOBBER | m.mode, &cpu, &io);
  exo_req(f >= 0, "create");
  exo_req(ex_put_init(f, m.title.c_str(), 3, m.nn(), m.ne(), m.blocks.size(), m.nsets.size(), m.ssets.size()) >= 0, "init");
  exo_req(ex_put_coord(f, m.x.data(), m.y.data(), m.z.data()) >= 0, "coord");
  bool an = m.aux && !m.plain_n && !m.nid.empty(), ae = m.aux && !m.plain_e && !m.eid.empty();
  auto& idn = an ? m.old_nid : m.nid;
  auto& ide = ae ? m.old_eid : m.eid;
  if (!idn.empty()) exo_req(ex_put_id_map(f, EX_NODE_MAP, idn.data()) >= 0, "node ids");
  if (!ide.empty()) exo_req(ex_put_id_map(f, EX_ELEM_MAP, ide.data()) >= 0, "elem ids");
  if (an || ae) exo_req(ex_put_map_param(f, an, ae) >= 0, "map param");
  if (an) { exo_req(ex_put_num_map(f, EX_NODE_MAP, 1, m.nid.data()) >= 0, "node map"); exo_req(ex_put_name(f, EX_NODE_MAP, 1, "original_global_id_map") >= 0, "map name"); }
  if (ae) { exo_req(ex_put_num_map(f, EX_ELEM_MAP, 1, m.eid.data()) >= 0, "elem map"); exo_req(ex_put_name(f, EX_ELEM_MAP, 1, "original_global_id_map") >= 0, "map name"); }
  for (auto& b : m.blocks) {
    exo_req(ex_put_block(f, EX_ELEM_BLOCK, b.id, b.type.c_str(), b.n(), b.nper, 0, 0, 0) >= 0, "block");
    if (!b.name.empty()) exo_req(ex_put_name(f, EX_ELEM_BLOCK, b.id, b.name.c_str()) >= 0, "block name");
    if (b.n()) {
      std::vector<int> c = b.conn;
      for (int& v : c) ++v;
      exo_req(ex_put_conn(f, EX_ELEM_BLOCK, b.id, c.data(), 0, 0) >= 0, "conn");
    }
  }
  for (int k = 0; k < 2; ++k)
    for (auto& s : k ? m.ssets : m.nsets) {
      ex_entity_type t = k ? EX_SIDE_SET : EX_NODE_SET;
      exo_req(ex_put_set_param(f, t, s.id, s.a.size(), s.df.size()) >= 0, "set param");
      std::vector<int> a = s.a, b = s.b;
      for (int& v : a) ++v;
      if (!a.empty()) exo_req(ex_put_set(f, t, s.id, a.data(), k ? b.data() : nullptr) >= 0, "set");
      if (!s.df.empty()) exo_req(ex_put_set_dist_fact(f, t, s.id, s.df.data()) >= 0, "set df");
      if (!s.name.empty()) exo_req(ex_put_name(f, t, s.id, s.name.c_str()) >= 0, "set name");
    }
  exo_req(ex_close(f) >= 0, "close");
}
inline bool exo_read(const std::string& path, Exo& m, bool results = true) {
  ex_opts(0);
  int cpu = 8, io = 0;
  float ver;
  int f = ex_open(path.c_str(), EX_READ, &cpu, &io, &ver);
  if (f < 0) return false;
  int dim, nn, ne, nb, nns, nss;
  char title[MAX_LINE_LENGTH + 1], nm[MAX_STR_LENGTH + 1];
  bool ok = ex_get_init(f, title, &dim, &nn, &ne, &nb, &nns, &nss) >= 0 && dim == 3;
  if (!ok) { ex_close(f); return false; }
  m = Exo();
  m.x.resize(nn); m.y.resize(nn); m.z.resize(nn);
  exo_req(ex_get_coord(f, m.x.data(), m.y.data(), m.z.data()) >= 0, "get coord");
  m.nid.resize(nn); m.eid.resize(ne);
  exo_req(ex_get_id_map(f, EX_NODE_MAP, m.nid.data()) >= 0, "get node ids");
  exo_req(ex_get_id_map(f, EX_ELEM_MAP, m.eid.data()) >= 0, "get elem ids");
  std::vector<int> ids(nb);
  if (nb) ex_get_ids(f, EX_ELEM_BLOCK, ids.data());
  for (int id : ids) {
    EBlock b;
    b.id = id;
    char ty[MAX_STR_LENGTH + 1];
    int n = 0, np = 0, a1, a2, a3;
    exo_req(ex_get_block(f, EX_ELEM_BLOCK, id, ty, &n, &np, &a1, &a2, &a3) >= 0, "get block");
    b.type = ty; b.nper = np;
    nm[0] = 0;
    ex_get_name(f, EX_ELEM_BLOCK, id, nm);
    b.name = nm;
    b.conn.resize(n * np);
    if (n) exo_req(ex_get_conn(f, EX_ELEM_BLOCK, id, b.conn.data(), 0, 0) >= 0, "get conn");
    for (int& v : b.conn) --v;
    m.blocks.push_back(b);
  }
  for (int k = 0; k < 2; ++k) {
    ex_entity_type t = k ? EX_SIDE_SET : EX_NODE_SET;
    std::vector<int> sid(k ? nss : nns);
    if (!sid.empty()) ex_get_ids(f, t, sid.data());
    for (int id : sid) {
      ESet s;
      s.id = id;
      nm[0] = 0;
      ex_get_name(f, t, id, nm);
      s.name = nm;
      int n = 0, d = 0;
      ex_get_set_param(f, t, id, &n, &d);
      s.a.resize(n); s.b.resize(k ? n : 0); s.df.resize(d);
      if (n) ex_get_set(f, t, id, s.a.data(), k ? s.b.data() : nullptr);
      if (d) ex_get_set_dist_fact(f, t, id, s.df.data());
      for (int& v : s.a) --v;
      (k ? m.ssets : m.nsets).push_back(s);
    }
  }
  if (results) {
    int nt = (int)ex_inquire_int(f, EX_INQ_TIME), nv = 0, ev = 0;
    if (nt) { m.times.resize(nt); exo_req(ex_get_all_times(f, m.times.data()) >= 0, "get times"); }
    ex_get_variable_param(f, EX_NODAL, &nv);
    ex_get_variable_param(f, EX_ELEM_BLOCK, &ev);
    int gv = 0;
    ex_get_variable_param(f, EX_GLOBAL, &gv);
    for (int i = 1; i <= gv; ++i) { ex_get_variable_name(f, EX_GLOBAL, i, nm); m.gvars.push_back(nm); }
    m.gval.assign(nt, std::vector<double>(gv, NAN));
    if (gv) for (int s = 0; s < nt; ++s) exo_req(ex_get_var(f, s + 1, EX_GLOBAL, 1, 1, gv, m.gval[s].data()) >= 0, "get global vars");
    for (int i = 1; i <= nv; ++i) { ex_get_variable_name(f, EX_NODAL, i, nm); m.nvars.push_back(nm); }
    for (int i = 1; i <= ev; ++i) { ex_get_variable_name(f, EX_ELEM_BLOCK, i, nm); m.evars.push_back(nm); }
    m.nval.resize(nt); m.evalv.resize(nt);
    for (int s = 0; s < nt; ++s) {
      m.nval[s].resize(nv); m.evalv[s].resize(ev);
      for (int i = 0; i < nv; ++i) { m.nval[s][i].resize(nn); if (nn) exo_req(ex_get_var(f, s + 1, EX_NODAL, i + 1, 1, nn, m.nval[s][i].data()) >= 0, "get nodal var"); }
      for (int i = 0; i < ev; ++i)
        for (auto& b : m.blocks)
          if (b.n()) {
            std::vector<double> v(b.n(), NAN);
            if (ex_get_var(f, s + 1, EX_ELEM_BLOCK, i + 1, b.id, b.n(), v.data()) >= 0) m.evalv[s][i][b.id] = v;
          }
    }
  }
  ex_close(f);
  return true;
}
inline std::vector<int> gen_ids(vp::Src& s, int n, int hi) {  // distinct positive ids
  std::vector<int> r;
  std::set<int> seen;
  int style = (int)s.below(3);
  for (int i = 0; i < n; ++i) {
    int v = style == 0 ? i + 1 : style == 1 ? (int)s.range(1, 3 * n + 2) : (int)s.range(1, hi);
    while (seen.count(v)) ++v;
    seen.insert(v);
    r.push_back(v);
  }
  return r;
}
inline std::string gen_name(vp::Src& s, std::set<std::string>& seen, const char* pre) {
  static const char* cs = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-.";
  for (;;) {
    std::string n;
    if (s.chance(1, 2)) n = std::string(pre) + "_" + std::to_string(s.range(1, 30));
    else { long k = s.chance(1, 12) ? 32 : s.range(1, 12); for (long i = 0; i < k; ++i) n += cs[s.below(i ? 65 : 52)]; }
    while (seen.count(n) && n.size() < 32) n += 'x';
    if (seen.insert(n).second) return n;
  }
}
