// C10 mesh reading; C12 (database half): what is handed to the output writer is what the file holds
#include <unistd.h>
#include <algorithm>
#include <iostream>
#include <fstream>
#include "exo.h"
#include "nimble_exodus_output.h"
#include "nimble_genesis_mesh.h"
using namespace vp;
using nimble::GenesisMesh;
namespace {
std::string dir;
void quiet() { static bool d = false; if (!d) { d = true; std::cout.setstate(std::ios::failbit); std::cerr.setstate(std::ios::failbit); } }
double gen_coord(Src& s) {
  switch (s.below(6)) {
    case 0: return (double)s.range(-3, 3);
    case 1: return s.usym(1);
    case 2: return s.logu(1e-300, 1e-3) * (s.flip() ? 1 : -1);
    case 3: return s.logu(1, 1e12) * (s.flip() ? 1 : -1);
    default: return s.uniform(-100, 100) / 3.0;
  }
}
Exo gen_mesh(Src& s, bool hexonly, bool text) {
  Exo m;
  int nn = (int)s.size(1, 60);
  for (int i = 0; i < nn; ++i) { m.x.push_back(gen_coord(s)); m.y.push_back(gen_coord(s)); m.z.push_back(gen_coord(s)); }
  if (!text && s.chance(1, 6)) {
    m.io = 4;
    for (auto* v : {&m.x, &m.y, &m.z}) for (double& c : *v) c = (float)c;
  }
  if (!text && s.chance(1, 8)) m.mode = EX_LARGE_MODEL;
  int nb = (int)s.range(1, 4);
  auto bid = gen_ids(s, nb, 1000000);
  std::set<std::string> names;
  for (int b = 0; b < nb; ++b) {
    EBlock k;
    k.id = bid[b];
    k.nper = hexonly ? 8 : s.pick({8, 4, 1, 8});
    k.type = k.nper == 8 ? s.pick({std::string("HEX8"), std::string("HEX"), std::string("hex8")}) : k.nper == 4 ? "TETRA" : "SPHERE";
    k.name = !text && s.chance(1, 3) ? "" : gen_name(s, names, "block");
    int ne = s.chance(1, 8) && !text ? 0 : (int)s.size(1, 20);
    for (int i = 0; i < ne * k.nper; ++i) k.conn.push_back((int)s.below(nn));
    if (ne == 0) { s.label("empty-block"); }
    m.blocks.push_back(k);
  }
  if (s.chance(3, 4)) {
    m.nid = gen_ids(s, nn, 2000000000);
    m.eid = gen_ids(s, m.ne(), 2000000000);
    if (!text && s.chance(1, 5)) (s.flip() ? m.nid : m.eid).clear();
    if (!m.eid.empty() && !m.nid.empty() && !text && s.chance(1, 3)) { m.aux = true; s.label("aux-map"); }
    else if (!text && m.ne() && s.chance(1, 4)) { m.aux = true; s.label("aux-map"); }
    if (m.aux) {
      int k = (int)s.below(4);
      if (k == 0) m.plain_n = true;
      if (k == 1) m.plain_e = true;
      if (s.flip()) m.old_nid = gen_ids(s, nn, 2000);
      if (s.flip()) m.old_eid = gen_ids(s, m.ne(), 2000);
      if (k < 2 || m.nid.empty() || m.eid.empty()) s.label("one-aux-map");
    }
  }
  names.clear();
  int nns = (int)s.range(0, 4), nss = text ? 0 : (int)s.range(0, 3);
  auto nsid = gen_ids(s, nns, 1000000), ssid = gen_ids(s, nss, 1000000);
  for (int i = 0; i < nns; ++i) {
    ESet e;
    e.id = nsid[i];
    e.name = !text && s.chance(1, 3) ? "" : gen_name(s, names, "nodelist");
    int n = s.chance(1, 6) ? 0 : (int)s.size(1, nn);
    auto p = s.perm(nn);
    e.a.assign(p.begin(), p.begin() + n);
    if (!text && s.flip()) { for (int k = 0; k < n; ++k) e.df.push_back(gen_coord(s)); s.label("df"); }
    else s.label("no-df");
    if (m.io == 4) for (double& c : e.df) c = (float)c;
    m.nsets.push_back(e);
  }
  names.clear();
  for (int i = 0; i < nss; ++i) {
    ESet e;
    e.id = ssid[i];
    e.name = s.chance(1, 3) ? "" : gen_name(s, names, "sideset");
    int n = m.ne() ? (s.chance(1, 6) ? 0 : (int)s.size(1, 20)) : 0;
    for (int k = 0; k < n; ++k) { e.a.push_back((int)s.below(m.ne())); e.b.push_back((int)s.range(1, 6)); }
    int ndf = s.pick({0, n, 4 * n});
    for (int k = 0; k < ndf; ++k) e.df.push_back(s.uniform(-1, 1));
    if (m.io == 4) for (double& c : e.df) c = (float)c;
    m.ssets.push_back(e);
    s.label(ndf == 0 ? "ss-no-df" : ndf == n ? "ss-df-per-side" : "ss-df-per-node");
  }
  s.note() << nn << " nodes, " << nb << " blocks (" << m.ne() << " elements), " << nns << " node sets, " << nss << " side sets, ids " << (m.nid.empty() ? "default" : m.aux ? "aux map" : "id map") << " io " << m.io;
  s.nontrivial(m.ne() > 1 && (nb > 1 || nns > 0));
  return m;
}
template <class V> void eqv(const V& got, const V& want, const std::string& what) {
  VP_REQUIRE(got.size() == want.size(), what << ": " << got.size() << " entries, file has " << want.size());
  for (size_t i = 0; i < want.size(); ++i) VP_REQUIRE(got[i] == want[i], what << " entry " << i << ": " << got[i] << ", file has " << want[i]);
}
void compare(Src& s, const Exo& m, GenesisMesh& g, bool text) {
  int nn = m.nn(), ne = m.ne();
  VP_REQUIRE(g.IsValid() && g.GetDim() == 3, "valid / dimension");
  VP_REQUIRE((int)g.GetNumNodes() == nn && (int)g.GetNumElements() == ne, "node or element count " << g.GetNumNodes() << " " << g.GetNumElements());
  for (int i = 0; i < nn; ++i)
    VP_REQUIRE(g.GetCoordinatesX()[i] == m.x[i] && g.GetCoordinatesY()[i] == m.y[i] && g.GetCoordinatesZ()[i] == m.z[i],
               "coordinates of node " << i << ": " << g.GetCoordinatesX()[i] << " " << g.GetCoordinatesY()[i] << " " << g.GetCoordinatesZ()[i] << " expected " << m.x[i] << " " << m.y[i] << " " << m.z[i]);
  int mx = -1;
  for (int i = 0; i < nn; ++i) {
    int w = (m.nid.empty() ? i + 1 : m.nid[i]) - 1;
    if (w > mx) mx = w;
    VP_REQUIRE(g.GetNodeGlobalIds()[i] == w, "global id of node " << i << " is " << g.GetNodeGlobalIds()[i] << ", file has " << w + 1 << " (1-based)");
  }
  VP_REQUIRE((int)g.GetNumNodeGlobalIds() == nn && g.GetMaxNodeGlobalId() == mx, "maximum global node id " << g.GetMaxNodeGlobalId());
  for (int i = 0; i < ne; ++i) VP_REQUIRE(g.GetElementGlobalIds()[i] == (m.eid.empty() ? i + 1 : m.eid[i]) - 1, "global id of element " << i << " is " << g.GetElementGlobalIds()[i]);
  // blocks
  std::vector<int> ids, all;
  std::map<int, int> nin, nper;
  std::vector<std::string> allnames;
  int e0 = 0;
  for (auto& b : m.blocks) {
    all.push_back(b.id);
    std::string nm = b.name.empty() ? "block_" + std::to_string(b.id) : b.name;
    VP_REQUIRE(g.GetBlockName(b.id) == nm, "name of block " << b.id << " is '" << g.GetBlockName(b.id) << "', file has '" << nm << "'");
    bool here = b.n() > 0;  // an empty block may share its default name with a named one
    for (auto& c : m.blocks) here = here || (c.n() > 0 && (c.name.empty() ? "block_" + std::to_string(c.id) : c.name) == nm);
    VP_REQUIRE(g.HasBlock(nm) == here, "HasBlock(" << nm << ")");
    if (!b.n()) continue;
    ids.push_back(b.id);
    allnames.push_back(nm);
    nin[b.id] = b.n();
    nper[b.id] = b.nper;
    // names given in the file may repeat a default one ("block_3"); the first is then found
    VP_REQUIRE(g.GetBlockName(g.GetBlockId(nm)) == nm, "GetBlockId(" << nm << ")");
    VP_REQUIRE(g.GetNumElementsInBlock(b.id) == b.n() && g.GetNumNodesPerElement(b.id) == b.nper, "size of block " << b.id);
    std::string ty = b.nper == 8 ? "HEX" : b.nper == 4 ? "TETRA" : "SPHERE";
    VP_REQUIRE(g.GetElementType(b.id) == ty, "element type of block " << b.id << " is " << g.GetElementType(b.id));
    for (size_t i = 0; i < b.conn.size(); ++i)
      VP_REQUIRE(g.GetConnectivity(b.id)[i] == b.conn[i], "connectivity of block " << b.id << " entry " << i << ": " << g.GetConnectivity(b.id)[i] << ", file has " << b.conn[i]);
    eqv(g.GetConnectivity().at(b.id), b.conn, "connectivity map of block " + std::to_string(b.id));
    auto ge = g.GetElementGlobalIdsInBlock(b.id);
    VP_REQUIRE((int)ge.size() == b.n(), "element ids of block " << b.id);
    for (int i = 0; i < b.n(); ++i) VP_REQUIRE(ge[i] == (m.eid.empty() ? e0 + i + 1 : m.eid[e0 + i]) - 1, "element id " << i << " of block " << b.id << " is " << ge[i]);
    e0 += b.n();
  }
  VP_REQUIRE((int)g.GetNumBlocks() == (int)ids.size() && (int)g.GetNumGlobalBlocks() == (int)all.size(), "number of blocks " << g.GetNumBlocks() << " " << g.GetNumGlobalBlocks());
  eqv(g.GetBlockIds(), ids, "block ids");
  eqv(g.GetAllBlockIds(), all, "all block ids");
  VP_REQUIRE(g.GetNumElementsInBlock() == nin && g.GetNumNodesPerElement() == nper, "per-block counts");
  std::vector<std::string> q;
  std::vector<int> qw, qg;
  for (int k = (int)s.below(4); k-- > 0;) {
    if (allnames.empty() || s.chance(1, 3)) q.push_back("no such block");
    else { q.push_back(s.pick(allnames)); qw.push_back(g.GetBlockId(q.back())); }
  }
  qg = {77};
  g.BlockNamesToOnProcessorBlockIds(q, qg);
  eqv(qg, qw, "block ids of names");
  VP_REQUIRE(!g.HasBlock("no such block"), "unknown block found");
  bool threw = false;
  try { g.GetBlockId("no such block"); } catch (const std::exception&) { threw = true; }
  VP_REQUIRE(threw, "id of an unknown block name");
  // sets
  for (int k = 0; k < (text ? 1 : 2); ++k) {
    const char* w = k ? "side set " : "node set ";
    auto& sets = k ? m.ssets : m.nsets;
    VP_REQUIRE((k ? g.GetNumSideSets() : g.GetNumNodeSets()) == (int)sets.size(), "number of " << w);
    auto gid = k ? g.GetSideSetIds() : g.GetNodeSetIds();
    auto gn = k ? g.GetSideSetNames() : g.GetNodeSetNames();
    auto gs = k ? g.GetSideSets() : g.GetNodeSets();
    auto gd = k ? g.GetSideSetDistributionFactors() : g.GetNodeSetDistributionFactors();
    for (size_t i = 0; i < sets.size(); ++i) {
      auto& e = sets[i];
      VP_REQUIRE(gid[i] == e.id, w << "ids");
      std::string nm = e.name.empty() ? (k ? "sideset_" : "nodelist_") + std::to_string(e.id) : e.name;
      VP_REQUIRE(gn.at(e.id) == nm, w << "name '" << gn.at(e.id) << "', file has '" << nm << "'");
      eqv(gs.at(e.id), e.a, w + nm);
      if (!text) eqv(gd.at(e.id), e.df, std::string(w) + nm + " distribution factors");
    }
  }
  // bounding box
  double lo[3], hi[3];
  g.BoundingBox(lo[0], hi[0], lo[1], hi[1], lo[2], hi[2]);
  auto c = g.BoundingBoxCenter();
  const std::vector<double>* v[3] = {&m.x, &m.y, &m.z};
  for (int d = 0; d < 3; ++d) {
    double a = *std::min_element(v[d]->begin(), v[d]->end()), b = *std::max_element(v[d]->begin(), v[d]->end());
    VP_REQUIRE(lo[d] == a && hi[d] == b, "bounding box in direction " << d << ": " << lo[d] << ".." << hi[d] << ", expected " << a << ".." << b);
    VP_REQUIRE(near(c[d], 0.5 * a + 0.5 * b, 1e-14, 1e-15 * std::max(std::fabs(a), std::fabs(b)) + 1e-300), "centre of the bounding box");
  }
}
void read_exodus(Src& s) {
  quiet();
  Exo m = gen_mesh(s, false, false);
  std::string p = s.dir + "/m.g";
  exo_write(m, p);
  GenesisMesh g;
  g.ReadFile(p);
  VP_REQUIRE(g.FileName() == p, "file name");
  compare(s, m, g, false);
}
void bad_files(Src& s) {
  quiet();
  std::string p = s.dir + "/bad.g";
  unlink(p.c_str());
  int kind = (int)s.below(5);
  s.nontrivial();
  s.note() << "kind " << kind;
  s.label("kind" + std::to_string(kind));
  Exo m = gen_mesh(s, true, false);
  if (kind == 1) { std::ofstream f(p); long n = s.range(0, 300); for (long i = 0; i < n; ++i) f << (char)s.below(256); }
  if (kind == 2) {  // an auxiliary map that is not the original numbering
    m.aux = m.plain_n = m.plain_e = false;
    exo_write(m, p);
    int cpu = 8, io = 8; float v;
    // a fresh file with a differently named map
    Exo k = m; k.aux = true;
    if (k.nid.empty()) for (int i = 0; i < k.nn(); ++i) k.nid.push_back(i + 1);
    if (k.eid.empty()) for (int i = 0; i < k.ne(); ++i) k.eid.push_back(i + 1);
    if (k.ne() == 0) throw Discard();
    exo_write(k, p);
    int f = ex_open(p.c_str(), EX_WRITE, &cpu, &io, &v);
    exo_req(f >= 0, "open");
    ex_put_name(f, s.flip() ? EX_NODE_MAP : EX_ELEM_MAP, 1, "some_other_map");
    ex_close(f);
  }
  if (kind == 4) {  // a node or element that is not there
    std::vector<std::pair<std::vector<int>*, int>> lists;
    for (auto& b : m.blocks) if (b.n()) lists.push_back({&b.conn, m.nn()});
    for (auto& t : m.nsets) if (t.a.size()) lists.push_back({&t.a, m.nn()});
    for (auto& t : m.ssets) if (t.a.size()) lists.push_back({&t.a, m.ne()});
    if (lists.empty()) throw Discard();
    auto l = s.pick(lists);
    (*l.first)[s.below(l.first->size())] = s.pick({-1, -2, -100, l.second, l.second + 1, l.second + 1000, 2000000000});
    exo_write(m, p);
  }
  if (kind == 3) {  // a truncated file
    exo_write(m, p);
    std::ifstream f(p, std::ios::binary);
    std::string all((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    f.close();
    std::ofstream o(p, std::ios::binary | std::ios::trunc);
    o << all.substr(0, s.below(std::min<size_t>(all.size(), 200)));
  }
  VP_REQUIRE(in_child([&] { GenesisMesh g; g.ReadFile(p); }) != 0, "an unusable mesh file (kind " << kind << ") was read without a report");
}
void text_roundtrip(Src& s) {
  quiet();
  Exo m = gen_mesh(s, false, true);
  std::string p = s.dir + "/t";
  // the text format as documented by the writer, written here independently
  bool own = s.flip();
  s.label(own ? "own-text" : "writer");
  if (own) {
    std::ofstream f(p + ".txt");
    char b[200];
    f << "number_of_nodes " << m.nn() << "\nnumber_of_elements " << m.ne() << "\nnumber_of_blocks " << m.blocks.size() << "\nnumber_of_node_sets " << m.nsets.size() << "\nnode_coordinates\n";
    for (int i = 0; i < m.nn(); ++i) { snprintf(b, 200, "%d %.17g %.17g %.17g\n", m.nid.empty() ? i + 1 : m.nid[i], m.x[i], m.y[i], m.z[i]); f << b; }
    int e = 0;
    for (auto& k : m.blocks) {
      f << "element_block\n" << k.id << " " << k.name << " " << k.n() << " " << k.nper << "\n";
      for (int i = 0; i < k.n(); ++i, ++e) { f << (m.eid.empty() ? e + 1 : m.eid[e]); for (int n = 0; n < k.nper; ++n) f << " " << k.conn[i * k.nper + n] + 1; f << "\n"; }
    }
    for (auto& k : m.nsets) { f << "nodeset\n" << k.id << " " << k.name << " " << k.a.size() << "\n"; for (int n : k.a) f << n + 1 << "\n"; }
  } else {
    std::string x = s.dir + "/x.g";
    exo_write(m, x);
    GenesisMesh g;
    g.ReadFile(x);
    nimble::ExodusOutput out;
    out.Initialize(p, g);
    std::map<int, std::vector<std::string>> none;
    for (auto& b : m.blocks) none[b.id];
    out.InitializeDatabaseTextFile(g, {}, {}, none, none);
  }
  GenesisMesh g;
  g.ReadTextFile(p);
  compare(s, m, g, true);
}
void memory_mesh(Src& s) {  // a mesh handed over in memory
  Exo m = gen_mesh(s, true, true);
  m.nsets.clear();
  std::vector<int> nid, eid, bid;
  std::map<int, std::string> bn;
  std::map<int, std::vector<int>> be, bc;
  std::map<int, int> np;
  for (int i = 0; i < m.nn(); ++i) nid.push_back((m.nid.empty() ? i + 1 : m.nid[i]) - 1);
  int e = 0;
  for (auto& b : m.blocks) {
    bid.push_back(b.id); bn[b.id] = b.name; np[b.id] = b.nper; bc[b.id] = b.conn;
    for (int i = 0; i < b.n(); ++i, ++e) { int id = (m.eid.empty() ? e + 1 : m.eid[e]) - 1; eid.push_back(id); be[b.id].push_back(id); }
  }
  GenesisMesh g;
  g.Initialize("mem", nid, m.x, m.y, m.z, eid, bid, bn, be, np, bc);
  compare(s, m, g, true);
}
// ------------------------------------------------------------- C12: database
void database(Src& s) {
  quiet();
  Exo m = gen_mesh(s, true, false);
  if (m.ne() == 0) throw Discard();
  m.io = 8;
  std::string p = s.dir + "/d.g", o = s.dir + "/d.e";
  exo_write(m, p);
  GenesisMesh g;
  g.ReadFile(p);
  std::set<std::string> seen;
  std::vector<std::string> gl, nd, pool;
  int ng = (int)s.range(0, 2), nv = (int)s.range(0, 5), np = (int)s.range(0, 5);
  for (int i = 0; i < ng; ++i) gl.push_back(gen_name(s, seen, "global"));
  seen.clear();
  for (int i = 0; i < nv; ++i) nd.push_back(gen_name(s, seen, "node"));
  seen.clear();
  for (int i = 0; i < np; ++i) pool.push_back(gen_name(s, seen, "elem"));
  std::map<int, std::vector<std::string>> en, dn;
  std::set<std::string> used;
  for (auto& b : m.blocks) {
    en[b.id]; dn[b.id];
    for (int i : s.perm(np)) {
      int k = (int)s.below(3);
      if (k == 2) continue;
      (k ? dn : en)[b.id].push_back(pool[i]);
      if (b.n()) used.insert(pool[i]);
    }
  }
  bool text = s.chance(1, 5);
  s.label(text ? "text" : "exodus");
  nimble::ExodusOutput out;
  out.Initialize(o, g);
  VP_REQUIRE(out.GetFileName() == o, "file name");
  if (s.chance(1, 8)) { std::ofstream f(o); f << "left over"; }
  if (text) out.InitializeDatabaseTextFile(g, gl, nd, en, dn); else out.InitializeDatabase(g, gl, nd, en, dn);
  int steps = (int)s.range(0, 4);
  std::vector<double> t;
  std::vector<std::vector<double>> G;
  std::vector<std::vector<std::vector<double>>> N;
  std::vector<std::map<int, std::vector<std::vector<double>>>> E, D;
  for (int k = 0; k < steps; ++k) {
    t.push_back((k ? t.back() : gen_coord(s)) + (k ? s.logu(1e-9, 1) : 0));
    std::vector<double> gv(ng);
    for (double& v : gv) v = gen_coord(s);
    std::vector<std::vector<double>> nv2(nv, std::vector<double>(m.nn()));
    for (auto& v : nv2) for (double& w : v) w = s.chance(1, 8) ? gen_coord(s) : s.usym(1e3);
    std::map<int, std::vector<std::vector<double>>> ev, dv;
    for (auto& b : m.blocks)
      for (int d = 0; d < 2; ++d)
        for (auto& x : (d ? dn : en)[b.id]) { std::vector<double> v(b.n()); for (double& w : v) w = s.usym(1e3); (d ? dv : ev)[b.id].push_back(v); }
    for (auto& b : m.blocks) { ev[b.id]; dv[b.id]; }
    G.push_back(gv); N.push_back(nv2); E.push_back(ev); D.push_back(dv);
    if (text) out.WriteStepTextFile(t[k], gv, nv2, en, ev, dn, dv); else out.WriteStep(t[k], gv, nv2, en, ev, dn, dv);
  }
  s.note() << "; " << ng << " global, " << nv << " nodal, " << np << " element variables, " << steps << " steps" << (text ? " (text)" : "");
  if (text) {
    GenesisMesh h;
    h.ReadTextFile(o);
    Exo q = m;
    q.blocks.erase(std::remove_if(q.blocks.begin(), q.blocks.end(), [](const EBlock& b) { return b.n() == 0; }), q.blocks.end());
    for (auto& b : q.blocks) if (b.name.empty()) b.name = "block_" + std::to_string(b.id);
    for (auto& e : q.nsets) if (e.name.empty()) e.name = "nodelist_" + std::to_string(e.id);
    compare(s, q, h, true);
    // values: times and every number in order
    std::ifstream f(o + ".txt");
    std::string line, key;
    int st = -1;
    std::vector<double> got, want;
    std::vector<std::string> heads, wheads;
    bool on = false;
    while (std::getline(f, line)) {
      if (line == "time") { on = true; continue; }
      if (!on) continue;
      if (line == "global_data_values" || line == "node_data_values" || line == "element_data_values") continue;
      char* e;
      double v = strtod(line.c_str(), &e);
      if (*e == 0 && e != line.c_str()) got.push_back(v); else heads.push_back(line);
    }
    std::vector<std::string> sorted(used.begin(), used.end());
    for (int k = 0; k < steps; ++k) {
      want.push_back(t[k]);
      for (double v : G[k]) want.push_back(v);
      for (auto& x : N[k]) for (double v : x) want.push_back(v);
      for (auto& b : m.blocks)
        if (b.n())
          for (int d = 0; d < 2; ++d)
            for (size_t i = 0; i < (d ? dn : en)[b.id].size(); ++i) {
              auto& nm = (d ? dn : en)[b.id][i];
              int idx = (int)(std::find(sorted.begin(), sorted.end(), nm) - sorted.begin()) + 1;
              wheads.push_back(nm + " " + std::to_string(idx) + " " + std::to_string(b.id) + " " + std::to_string(b.n()));
              for (double v : (d ? D : E)[k][b.id][i]) want.push_back(v);
            }
    }
    eqv(heads, wheads, "variable headings");
    eqv(got, want, "values in the text file");
    return;
  }
  Exo r;
  VP_REQUIRE(exo_read(o, r), "the output file cannot be read");
  eqv(r.x, m.x, "x"); eqv(r.y, m.y, "y"); eqv(r.z, m.z, "z");
  for (int i = 0; i < m.nn(); ++i) VP_REQUIRE(r.nid[i] == (m.nid.empty() ? i + 1 : m.nid[i]), "node id map");
  for (int i = 0; i < m.ne(); ++i) VP_REQUIRE(r.eid[i] == (m.eid.empty() ? i + 1 : m.eid[i]), "element id map");
  VP_REQUIRE(r.blocks.size() == m.blocks.size(), "blocks: " << r.blocks.size());
  for (size_t b = 0; b < m.blocks.size(); ++b) {
    auto &x = m.blocks[b], &y = r.blocks[b];
    VP_REQUIRE(x.id == y.id && y.name == (x.name.empty() ? "block_" + std::to_string(x.id) : x.name), "block " << x.id << " is written as " << y.id << " '" << y.name << "'");
    VP_REQUIRE(x.n() == y.n() && (x.n() == 0 || (x.nper == y.nper && y.type == "HEX")), "block " << x.id << " size or type " << y.type);
    eqv(y.conn, x.conn, "connectivity in the output file");
  }
  VP_REQUIRE(r.nsets.size() == m.nsets.size(), "node sets: " << r.nsets.size());
  for (size_t b = 0; b < m.nsets.size(); ++b) {
    auto &x = m.nsets[b], &y = r.nsets[b];
    VP_REQUIRE(x.id == y.id, "node set ids");
    std::string nm = x.name.empty() ? "nodelist_" + std::to_string(x.id) : x.name;
    VP_REQUIRE(y.name == nm, "node set " << x.id << " is named '" << y.name << "' in the output, '" << nm << "' in the mesh");
    eqv(y.a, x.a, "node set in the output file");
    eqv(y.df, x.df, "node set distribution factors in the output file");
  }
  eqv(r.times, t, "times");
  eqv(r.nvars, nd, "nodal variable names");
  eqv(r.evars, std::vector<std::string>(used.begin(), used.end()), "element variable names");
  for (int k = 0; k < steps; ++k) {
    for (int v = 0; v < nv; ++v) eqv(r.nval[k][v], N[k][v], "nodal variable " + nd[v]);
    for (auto& b : m.blocks)
      if (b.n())
        for (int d = 0; d < 2; ++d)
          for (size_t i = 0; i < (d ? dn : en)[b.id].size(); ++i) {
            auto& nm = (d ? dn : en)[b.id][i];
            int idx = (int)(std::find(r.evars.begin(), r.evars.end(), nm) - r.evars.begin());
            eqv(r.evalv[k][idx][b.id], (d ? D : E)[k][b.id][i], "element variable " + nm + " of block " + std::to_string(b.id));
          }
  }
}
}  // namespace
int main(int argc, char** argv) {
  return vp_main(argc, argv, {
    {"C10", "read-exodus", read_exodus, 20000, 300000, "random Exodus meshes (block/set/global ids, names or none, empty blocks and sets, with and without distribution factors, id maps, auxiliary maps, single precision) written with the Exodus library and compared item by item; non-trivial = several elements with several blocks or sets", {}, 30},
    {"C10", "text-round-trip", text_roundtrip, 30000, 400000, "random meshes in the text format, written by the harness or by the writer, read back; non-trivial = several elements with several blocks or sets", {}, 30},
    {"C10", "memory-mesh", memory_mesh, 100000, 1500000, "random meshes handed over in memory; non-trivial = several elements with several blocks or sets", {}, 30},
    {"C10", "unusable-files", bad_files, 4000, 40000, "missing, garbage and truncated files, unsupported auxiliary maps, and blocks and sets with nodes or elements that are not there must be reported; all non-trivial", {}, 30},
    {"C12", "database", database, 20000, 300000, "random meshes, variable lists and values through the output writer, read back with the Exodus library (or as text); non-trivial = several elements with several blocks or sets", {}, 30},
  });
}
