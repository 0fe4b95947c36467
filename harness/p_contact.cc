// C20 contact surfaces, C21 projections, C22 contact forces, C23 contact entities and commands
#include <mpi.h>
#include <Kokkos_Core.hpp>
#include <numeric>
#include "nimble_contact_interface.h"
#include "nimble_contact_manager.h"
#include "nimble_data_manager.h"
#include "nimble_genesis_mesh.h"
#include "nimble_parser.h"
#include "nimble_vector_communicator.h"
#include "sim.h"
using namespace vp;
using namespace sim;
using nimble::ContactEntity;
namespace {
struct Quiet {
  std::ostringstream o;
  std::streambuf *a, *b;
  Quiet() : a(std::cout.rdbuf(o.rdbuf())), b(std::cerr.rdbuf(o.rdbuf())) {}
  ~Quiet() { std::cout.rdbuf(a); std::cerr.rdbuf(b); }
};
struct CM : nimble::ContactManager {
  using nimble::ContactManager::ContactManager;
  using nimble::ContactManager::ApplyDisplacements;
  using nimble::ContactManager::BoundingBox;
  using nimble::ContactManager::BoundingBoxAverageCharacteristicLengthOverAllRanks;
  using nimble::ContactManager::ClosestPointProjection;
  using nimble::ContactManager::ClosestPointProjectionSingle;
  using nimble::ContactManager::EnforceNodeFaceInteraction;
  using nimble::ContactManager::GetForces;
  using nimble::ContactManager::ResetContactStatus;
  using nimble::ContactManager::ZeroContactForce;
  using nimble::ContactManager::contact_faces_d_;
  using nimble::ContactManager::contact_faces_h_;
  using nimble::ContactManager::contact_nodes_d_;
  using nimble::ContactManager::contact_nodes_h_;
  using nimble::ContactManager::coord_d_;
  using nimble::ContactManager::force_d_;
  using nimble::ContactManager::getContactFace;
  using nimble::ContactManager::getContactNode;
  using nimble::ContactManager::node_ids_;
};
nimble::DataManager& manager() {   // the managers under test keep a reference to one; these checks never make them use it
  static nimble::Parser p;
  static nimble::GenesisMesh g;
  static nimble::DataManager* d = nullptr;
  if (!d) {
    g.Initialize("none", {0}, {0}, {0}, {0}, {}, {}, {}, {}, {}, {});
    d = new nimble::DataManager(p, g);
  }
  return *d;
}
CM fresh() { return CM(std::make_shared<nimble::ContactInterface>(), manager()); }

nimble::GenesisMesh to_mesh(const Model& m) {
  nimble::GenesisMesh g;
  std::vector<int> nid, eid;
  std::vector<double> x[3];
  for (int n = 0; n < m.nn(); ++n) { nid.push_back(m.nid.empty() ? n : m.nid[n] - 1); for (int d = 0; d < 3; ++d) x[d].push_back((double)m.X[n][d]); }
  std::map<int, std::string> names;
  std::map<int, std::vector<int>> eg, conn;
  std::map<int, int> per;
  for (size_t b = 0; b < m.bid.size(); ++b) { names[m.bid[b]] = "block_" + std::to_string(m.bid[b]); eg[m.bid[b]]; conn[m.bid[b]]; per[m.bid[b]] = 8; }
  for (int e = 0; e < m.ne(); ++e) {
    int g2 = m.eid.empty() ? e : m.eid[e] - 1, b = m.bid[m.eb[e]];
    eid.push_back(g2); eg[b].push_back(g2);
    conn[b].insert(conn[b].end(), m.el[e].begin(), m.el[e].end());
  }
  g.Initialize("none", nid, x[0], x[1], x[2], eid, m.bid, names, eg, per, conn);
  return g;
}
int egid(const Model& m, int e) { return m.eid.empty() ? e : m.eid[e] - 1; }
int ngid(const Model& m, int n) { return m.nid.empty() ? n : m.nid[n] - 1; }
Model solid(Src& s, int mincells) {
  Opt o;
  o.bcs = false; o.mincells = mincells; o.maxblocks = 4;
  Model m = gen_model(s, o);
  return m;
}
std::vector<int> pick_blocks(Src& s, const Model& m) {
  std::vector<int> r;
  for (int i : s.perm((int)m.bid.size())) if (s.chance(3, 5)) r.push_back(m.bid[i]);
  if (r.empty() && s.chance(3, 4)) r.push_back(m.bid[s.below(m.bid.size())]);
  return r;
}
// ---------------------------------------------------------------- C20
void c20_skin(Src& s) {
  Model m = solid(s, 1);
  if (!m.eid.empty() && s.chance(1, 3)) for (int& i : m.eid) i += 40000000;
  auto ids = pick_blocks(s, m);
  int off = s.chance(1, 3) ? 0 : (int)s.below(1000000);
  s.note() << describe(m) << "; blocks";
  for (int b : ids) s.note() << " " << b;
  s.note() << ", offset " << off;
  nimble::GenesisMesh g = to_mesh(m);
  std::vector<std::vector<int>> faces(3, {1, 2});
  std::vector<int> ent(2, 5);
  nimble::ContactManager::SkinBlocks(g, ids, off, faces, ent);
  auto want = exposed(m, std::set<int>(ids.begin(), ids.end()));
  VP_REQUIRE(faces.size() == ent.size(), "numbers of faces and of entity ids");
  std::map<long, const Face*> by;
  for (auto& f : want) by[((long)egid(m, f.e) + 1 + off) * 8 + f.side] = &f;
  std::set<long> seen;
  for (size_t i = 0; i < faces.size(); ++i) {
    long k = ent[i] >> 2;
    VP_REQUIRE((ent[i] & 3) == 0, "triangle ordinal in the id of a whole face");
    auto it = by.find(k);
    VP_REQUIRE(it != by.end(), "entity id " << ent[i] << " (element " << (k >> 3) - off - 1 << ", side " << (k & 7) << ") names no exposed face");
    VP_REQUIRE(seen.insert(k).second, "side " << (k & 7) << " of element " << (k >> 3) - off - 1 << " listed twice");
    auto& w = it->second->n;
    bool same = faces[i].size() == 4;
    if (same) { bool any = false; for (int r = 0; r < 4; ++r) { bool q = true; for (int j = 0; j < 4; ++j) q = q && faces[i][j] == w[(j + r) % 4]; any = any || q; } same = any; }
    VP_REQUIRE(same, "nodes of side " << (k & 7) << " of element " << (k >> 3) - off - 1 << " are wrong or not in outward order");
  }
  VP_REQUIRE(seen.size() == want.size(), seen.size() << " faces, " << want.size() << " are exposed");
  s.label("blocks chosen=" + std::to_string(ids.size()));
  s.tally("faces", want.size());
  s.nontrivial(m.ne() > 1 && !want.empty());
}
// every rank's contact surface against the global model
void c20_entities(Src& s) {
  bool par = s.np > 1;
  Model m = solid(s, par ? 2 : 1);
  if (m.ne() < s.np) throw Discard();
  auto P = pick_blocks(s, m), S = s.chance(1, 6) ? P : pick_blocks(s, m);
  std::vector<int> own(m.ne(), 0);
  if (par) {
    if (s.flip()) { for (int& r : own) r = (int)s.below(s.np); }
    else { int ax = (int)s.below(3); auto q = std::vector<int>(m.ne()); std::iota(q.begin(), q.end(), 0); std::sort(q.begin(), q.end(), [&](int a, int b) { return std::make_pair(m.X[m.el[a][0]][ax], a) < std::make_pair(m.X[m.el[b][0]][ax], b); }); for (int i = 0; i < m.ne(); ++i) own[q[i]] = i * s.np / m.ne(); }
    auto p = s.perm(m.ne());
    for (int r = 0; r < s.np; ++r) own[p[r]] = r;
  }
  std::vector<int> mine, nodes, elems;
  for (int e = 0; e < m.ne(); ++e) if (own[e] == s.rank) mine.push_back(e);
  Model l = part(m, mine, nodes, elems, s.np > 1 ? false : true, s.np > 1 ? part_key(s) : 0);
  s.note() << describe(m) << "; primary";
  for (int b : P) s.note() << " " << b;
  s.note() << " secondary";
  for (int b : S) s.note() << " " << b;
  if (par) { s.note() << "; element ranks"; for (int r : own) s.note() << " " << r; }
  nimble::GenesisMesh g = to_mesh(l);
  std::vector<int> gid(g.GetNodeGlobalIds(), g.GetNodeGlobalIds() + g.GetNumNodes());
  auto here = [&](const std::vector<int>& v) { std::vector<int> r; for (int b : v) if (std::count(l.bid.begin(), l.bid.end(), b)) r.push_back(b); return r; };
  static nimble::VectorCommunicator* one = nullptr;
  std::unique_ptr<nimble::VectorCommunicator> mineC;
  nimble::VectorCommunicator* vc = one;
  if (par || !one) {
    mineC.reset(new nimble::VectorCommunicator(3, g.GetNumNodes(), Teuchos::RCP<const Teuchos::Comm<int>>()));
    mineC->Initialize(par ? gid : std::vector<int>{0});
    vc = mineC.get();
    if (!par) one = mineC.release();
  }
  CM cm = fresh();
  { Quiet q; cm.CreateContactEntities(g, *vc, here(P), here(S)); }
  // what it should be
  auto pf = exposed(m, std::set<int>(P.begin(), P.end())), sf = exposed(m, std::set<int>(S.begin(), S.end()));
  std::vector<Face> pm;
  for (auto& f : pf) if (own[f.e] == s.rank) pm.push_back(f);
  std::vector<std::string> bad;
  auto why = [&](const std::string& t) { if (bad.size() < 3) bad.push_back(t); };
  auto S1 = [](double v) { return num(v); };
  size_t nf = cm.numContactFaces(), nc = cm.numContactNodes();
  // local submodel index -> global model node
  auto& sub = cm.node_ids_;
  std::vector<int> tog;
  for (int i : sub) { if (i < 0 || i >= (int)nodes.size()) { why("contact node list names no node of the mesh"); break; } tog.push_back(nodes[i]); }
  if (std::set<int>(tog.begin(), tog.end()).size() != tog.size()) why("contact node list names a node twice");
  std::map<long, int> tri;   // element*8+side -> seen triangles
  std::map<std::array<int, 4>, const Face*> key;
  for (auto& f : pm) { auto k = f.n; std::sort(k.begin(), k.end()); key[k] = &f; }
  std::vector<long> allids;
  long offset = LONG_MIN;
  auto longest = [&](const std::array<int, 4>& n) { LD d = 0; for (int i = 0; i < 4; ++i) d = std::max(d, vnorm(vsub(m.X[n[i]], m.X[n[(i + 1) % 4]]))); return d; };
  auto ok = [&](int i) { return i >= 0 && i < (int)tog.size(); };
  LD big = 0;
  for (auto& p : m.X) for (LD c : p) big = std::max(big, fabsl(c));
  for (size_t i = 0; i < nf && bad.empty(); ++i) {
    const ContactEntity& c = cm.getContactFace(i);
    std::array<int, 4> f = {c.node_id_1_for_fictitious_node_, c.node_id_2_for_fictitious_node_, c.node_id_3_for_fictitious_node_, c.node_id_4_for_fictitious_node_};
    if (!ok(f[0]) || !ok(f[1]) || !ok(f[2]) || !ok(f[3]) || !ok(c.node_id_for_node_1_) || !ok(c.node_id_for_node_2_)) { why("a contact face refers to a node that is not in the contact model"); break; }
    for (int& n : f) n = tog[n];
    int a = tog[c.node_id_for_node_1_], b = tog[c.node_id_for_node_2_];
    auto k = f; std::sort(k.begin(), k.end());
    auto it = key.find(k);
    if (it == key.end()) { why("a contact face that is not an exposed face of the primary blocks on this rank"); break; }
    const Face& F = *it->second;
    int at = -1;
    for (int j = 0; j < 4; ++j) if (F.n[j] == a && F.n[(j + 1) % 4] == b) at = j;
    if (at < 0) { why("triangle " + std::to_string(i) + " does not follow an edge of its face in outward order"); break; }
    long id = c.contact_entity_global_id();
    allids.push_back(id);
    int& seen = tri[(long)F.e * 8 + F.side];
    if (seen & (1 << at)) why("the same triangle of a face twice");
    seen |= 1 << at;
    if (((id >> 2) & 7) != F.side) why("entity id names side " + std::to_string((id >> 2) & 7) + ", the face is side " + std::to_string(F.side));
    long o = (id >> 5) - egid(m, F.e);
    if (offset == LONG_MIN) offset = o;
    if (o != offset) why("entity id does not identify the element");
    if (c.entity_type_ != ContactEntity::TRIANGLE || c.num_nodes_ != 3) why("not a triangle");
    LD cen[3] = {0, 0, 0};
    for (int n : F.n) for (int d = 0; d < 3; ++d) cen[d] += m.X[n][d] / 4;
    double q[9] = {c.coord_1_x_, c.coord_1_y_, c.coord_1_z_, c.coord_2_x_, c.coord_2_y_, c.coord_2_z_, c.coord_3_x_, c.coord_3_y_, c.coord_3_z_};
    for (int d = 0; d < 3; ++d) if (q[d] != m.X[a][d] || q[3 + d] != m.X[b][d] || fabsl(q[6 + d] - cen[d]) > 1e-15L * 8 * big) why("coordinates of a triangle");
    if (!near(c.char_len_, (double)longest(F.n), 1e-12, 1e-14 * (double)big)) why("characteristic length of a face " + S1(c.char_len_) + ", longest edge " + S1((double)longest(F.n)));
  }
  for (auto& f : pm) if (tri[(long)f.e * 8 + f.side] != 15) why("side " + std::to_string(f.side) + " of element " + std::to_string(egid(m, f.e)) + " is exposed and not covered by four triangles");
  std::vector<int> nid;
  std::set<int> want;
  for (auto& f : sf) for (int n : f.n) want.insert(n);
  for (size_t i = 0; i < nc && bad.empty(); ++i) {
    const ContactEntity& c = cm.getContactNode(i);
    if (!ok(c.node_id_for_node_1_)) { why("a contact node that is not in the contact model"); break; }
    int n = tog[c.node_id_for_node_1_];
    if (!want.count(n)) why("node " + std::to_string(ngid(m, n)) + " is a contact node and not on the secondary surface");
    if (c.contact_entity_global_id() != ngid(m, n) + 1) why("entity id of a contact node");
    if (c.coord_1_x_ != m.X[n][0] || c.coord_1_y_ != m.X[n][1] || c.coord_1_z_ != m.X[n][2]) why("coordinates of a contact node");
    if (c.entity_type_ != ContactEntity::NODE || c.num_nodes_ != 1) why("not a node");
    LD all = 0, loc = 0;
    for (auto& f : sf) if (std::count(f.n.begin(), f.n.end(), n)) { all = std::max(all, longest(f.n)); if (own[f.e] == s.rank) loc = std::max(loc, longest(f.n)); }
    // (the lengths other ranks find are not exchanged)
    if (!near(c.char_len_, (double)all, 1e-12, 1e-14 * (double)big) && !near(c.char_len_, (double)loc, 1e-12, 1e-14 * (double)big)) why("characteristic length of a contact node " + S1(c.char_len_) + ", longest edge " + S1((double)all));
    nid.push_back(n);
    allids.push_back(c.contact_entity_global_id());
  }
  // across ranks
  std::vector<int> cnt(m.nn(), 0), tot(m.nn(), 0);
  for (int n : nid) ++cnt[n];
  int nb = bad.empty() ? 0 : 1, anybad = nb;
  long lo = offset == LONG_MIN ? LONG_MAX : offset, hi = offset, glo = lo, ghi = hi;
  std::vector<long> gall = allids;
  if (par) {
    MPI_Allreduce(cnt.data(), tot.data(), m.nn(), MPI_INT, MPI_SUM, MPI_COMM_WORLD);
    MPI_Allreduce(&nb, &anybad, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
    MPI_Allreduce(&lo, &glo, 1, MPI_LONG, MPI_MIN, MPI_COMM_WORLD);
    MPI_Allreduce(&hi, &ghi, 1, MPI_LONG, MPI_MAX, MPI_COMM_WORLD);
    int k = (int)allids.size();
    std::vector<int> ks(s.np), at(s.np, 0);
    MPI_Allgather(&k, 1, MPI_INT, ks.data(), 1, MPI_INT, MPI_COMM_WORLD);
    for (int r = 1; r < s.np; ++r) at[r] = at[r - 1] + ks[r - 1];
    gall.resize(at.back() + ks.back());
    MPI_Allgatherv(allids.data(), k, MPI_LONG, gall.data(), ks.data(), at.data(), MPI_LONG, MPI_COMM_WORLD);
  } else tot = cnt;
  if (nb) fail("rank " + std::to_string(s.rank) + ": " + bad[0]);
  if (anybad) fail("another rank's contact surface is wrong");
  for (int n = 0; n < m.nn(); ++n)
    VP_REQUIRE(tot[n] == (want.count(n) ? 1 : 0), "node " << ngid(m, n) << (want.count(n) ? " of the secondary surface is a contact node " : " which is not on the secondary surface is a contact node ") << tot[n] << " times over all ranks");
  if (glo <= ghi) VP_REQUIRE(glo == ghi, "ranks use different offsets in their entity ids");
  std::sort(gall.begin(), gall.end());
  VP_REQUIRE(std::adjacent_find(gall.begin(), gall.end()) == gall.end(), "two contact entities with the same id");
  VP_REQUIRE(cm.ContactEnabled(), "contact is not enabled");
  // a cut through the secondary surface
  bool cut = false;
  std::map<int, std::set<int>> rk;
  for (auto& f : sf) for (int n : f.n) rk[n].insert(own[f.e]);
  for (auto& kv : rk) cut = cut || kv.second.size() > 1;
  s.label("np=" + std::to_string(s.np));
  if (par) s.label(cut ? "secondary surface shared by ranks" : "secondary surface not shared");
  s.label(P == S ? "the same blocks" : "different blocks");
  s.tally("faces", pf.size()); s.tally("nodes", want.size());
  s.nontrivial(!pf.empty() && !want.empty() && m.ne() > 1 && (!par || cut));
  // ------ following the nodes, C22
}
// ---------------------------------------------------------------- C21
struct Tri { V3 p[3]; LD L; };
Tri gen_tri(Src& s) {
  Tri t;
  double h = any_units(s, 1e-3, 1e3, 1e-10, 1e9);
  V3 off = {0, 0, 0};
  if (s.chance(1, 3)) for (LD& c : off) c = s.usym(20) * h;
  for (auto& p : t.p) for (int d = 0; d < 3; ++d) p[d] = (double)((s.chance(1, 4) ? (double)s.range(-2, 2) : s.usym(2)) * h + off[d]);
  t.L = 0;
  for (int i = 0; i < 3; ++i) t.L = std::max(t.L, vnorm(vsub(t.p[i], t.p[(i + 1) % 3])));
  V3 n = cross(vsub(t.p[1], t.p[0]), vsub(t.p[2], t.p[0]));
  if (!(vnorm(n) > 0.02L * t.L * t.L)) throw Discard();
  return t;
}
ContactEntity face_of(const Tri& t, double len) {
  double c[9];
  for (int i = 0; i < 9; ++i) c[i] = (double)t.p[i / 3][i % 3];
  int q[4] = {0, 1, 2, 3};
  return ContactEntity(ContactEntity::TRIANGLE, 32, 0, c, len, 0, 1, q);
}
ContactEntity node_of(const V3& p, double len = 1) { double c[3] = {(double)p[0], (double)p[1], (double)p[2]}; return ContactEntity(ContactEntity::NODE, 7, 0, c, len, 4); }
struct Foot { LD b[3], gap; V3 n, x; };
Foot foot(const Tri& t, const V3& p) {
  V3 u = vsub(t.p[1], t.p[0]), v = vsub(t.p[2], t.p[0]), w = vsub(p, t.p[0]), n = cross(u, v);
  LD n2 = dot(n, n);
  Foot f;
  f.b[2] = dot(cross(u, w), n) / n2; f.b[1] = dot(cross(w, v), n) / n2; f.b[0] = 1 - f.b[1] - f.b[2];
  LD l = sqrtl(n2);
  for (int d = 0; d < 3; ++d) { f.n[d] = n[d] / l; f.x[d] = f.b[0] * t.p[0][d] + f.b[1] * t.p[1][d] + f.b[2] * t.p[2][d]; }
  f.gap = dot(w, f.n);
  return f;
}
V3 nearest(const Tri& t, const V3& p) {
  Foot f = foot(t, p);
  if (f.b[0] >= 0 && f.b[1] >= 0 && f.b[2] >= 0) return f.x;
  V3 best{0, 0, 0};
  LD bd = INFINITY;
  for (int i = 0; i < 3; ++i) {
    V3 a = t.p[i], e = vsub(t.p[(i + 1) % 3], a);
    LD k = dot(vsub(p, a), e) / dot(e, e);
    k = std::max((LD)0, std::min((LD)1, k));
    V3 q = vadd(a, e, k);
    LD d = vnorm(vsub(p, q));
    if (d < bd) { bd = d; best = q; }
  }
  return best;
}
V3 gen_point(Src& s, const Tri& t) {
  LD b[3];
  int k = (int)s.below(6);
  if (k <= 1) { b[1] = s.unit(); b[2] = s.unit(); if (b[1] + b[2] > 1) { b[1] = 1 - b[1]; b[2] = 1 - b[2]; } b[0] = 1 - b[1] - b[2]; }
  else if (k == 2) { int i = (int)s.below(3); b[i] = 0; b[(i + 1) % 3] = s.chance(1, 4) ? 0.5 : s.unit(); b[(i + 2) % 3] = 1 - b[(i + 1) % 3]; }
  else if (k == 3) { int i = (int)s.below(3); b[0] = b[1] = b[2] = 0; b[i] = 1; }
  else if (k == 4) { int i = (int)s.below(3); double e = s.logu(1e-7, 0.1); b[i] = s.flip() ? e : -e; b[(i + 1) % 3] = s.uniform(0.1, 0.8); b[(i + 2) % 3] = 1 - b[i] - b[(i + 1) % 3]; }
  else { b[1] = s.usym(3); b[2] = s.usym(3); b[0] = 1 - b[1] - b[2]; }
  Foot f = foot(t, t.p[0]);
  LD g = s.chance(1, 8) ? 0 : (s.chance(1, 4) ? s.usym(3) : s.flip() ? -s.logu(1e-6, 1) : s.logu(1e-6, 1)) * t.L;
  V3 p;
  for (int d = 0; d < 3; ++d) p[d] = (double)(b[0] * t.p[0][d] + b[1] * t.p[1][d] + b[2] * t.p[2][d] + g * f.n[d]);
  return p;
}
Tri turned(const Tri& t, int r) { Tri q = t; for (int i = 0; i < 3; ++i) q.p[i] = t.p[(i + r) % 3]; return q; }
void c21_projection(Src& s) {
  Tri t = gen_tri(s);
  V3 p = gen_point(s, t);
  double len = (double)t.L * (s.chance(1, 3) ? s.logu(0.01, 10) : s.uniform(0.5, 1.5));
  for (auto& q : t.p) s.note() << "(" << (double)q[0] << " " << (double)q[1] << " " << (double)q[2] << ") ";
  s.note() << "point (" << (double)p[0] << " " << (double)p[1] << " " << (double)p[2] << ") depth " << len;
  LD big = t.L;
  for (auto& q : t.p) for (LD c : q) big = std::max(big, fabsl(c));
  for (LD c : p) big = std::max(big, fabsl(c));
  LD far = vnorm(vsub(p, t.p[0])) + t.L;
  V3 nn = cross(vsub(t.p[1], t.p[0]), vsub(t.p[2], t.p[0]));
  LD slim = t.L * t.L / vnorm(nn);
  LD tb = 1e-15L * 40 * slim * slim * (far / t.L) + 1e-15L * 8 * big / t.L * slim * slim, tg = 1e-15L * 40 * (big + far * slim) * (1 + far / t.L);
  Foot f = foot(t, p);
  LD lo = std::min({f.b[0], f.b[1], f.b[2]}), hi = std::max({f.b[0], f.b[1], f.b[2]});
  const LD tol = 1e-8L;
  bool depth_in = f.gap < -tg && f.gap > -(LD)len + tg, depth_out = f.gap > tg || f.gap < -(LD)len - tg;
  bool foot_in = lo > -tol + tb && hi < 1 + tol - tb, foot_out = lo < -tol - tb;
  bool rin[3], rface[3];
  for (int r = 0; r < 3; ++r) {
    Tri q = turned(t, r);
    ContactEntity fe = face_of(q, len), ne = node_of(p, s.uniform(0.1, 2));
    bool in = r == 1;
    double gap = 77, n[3] = {7, 7, 7}, b[3] = {7, 7, 7};
    nimble::ContactManager::Projection(ne, fe, in, gap, n, b);
    rin[r] = in;
    if (in) {
      VP_REQUIRE(!foot_out && !depth_out, "contact reported: foot " << (double)f.b[0] << " " << (double)f.b[1] << " " << (double)f.b[2] << ", gap " << (double)f.gap << ", depth " << len);
      VP_REQUIRE(fabsl(gap - f.gap) <= tg, "gap " << gap << ", signed distance to the plane is " << (double)f.gap);
      LD sum = 0;
      for (int i = 0; i < 3; ++i) {
        VP_REQUIRE(fabsl(n[i] - f.n[i]) <= 1e-15L * 40 * slim * slim + 1e-15L * big / t.L * slim * 8, "normal component " << n[i] << ", expected " << (double)f.n[i]);
        VP_REQUIRE(fabsl(b[i] - f.b[(i + r) % 3]) <= tb, "barycentric coordinate " << b[i] << ", of the foot: " << (double)f.b[(i + r) % 3]);
        sum += b[i];
      }
      VP_REQUIRE(fabsl(sum - 1) < 1e-12L, "barycentric coordinates sum to " << (double)sum);
    } else
      VP_REQUIRE(!(foot_in && depth_in), "no contact reported: foot " << (double)f.b[0] << " " << (double)f.b[1] << " " << (double)f.b[2] << ", gap " << (double)f.gap << ", depth " << len);
    // the older interface
    nimble::ContactManager::PROJECTION_TYPE ty = nimble::ContactManager::NODE_OR_EDGE;
    ContactEntity::vertex cp;
    gap = 77;
    nimble::ContactManager::SimpleClosestPointProjectionSingle(ne, fe, &ty, &cp, gap, n);
    VP_REQUIRE(ty == nimble::ContactManager::FACE || ty == nimble::ContactManager::UNKNOWN, "projection type " << (int)ty);
    rface[r] = ty == nimble::ContactManager::FACE;
    if (rface[r]) {
      VP_REQUIRE(!foot_out, "the foot lies outside: " << (double)lo);
      VP_REQUIRE(fabsl(gap - f.gap) <= tg, "gap (simple) " << gap << ", signed distance to the plane is " << (double)f.gap);
      for (int i = 0; i < 3; ++i) {
        VP_REQUIRE(fabsl(cp[i] - f.x[i]) <= tb * t.L * 3 + 1e-15L * 8 * big, "foot of the perpendicular: " << cp[i] << ", expected " << (double)f.x[i]);
        VP_REQUIRE(fabsl(n[i] - f.n[i]) <= 1e-15L * 40 * slim * slim + 1e-15L * big / t.L * slim * 8, "normal (simple)");
      }
    } else VP_REQUIRE(!foot_in, "the foot lies inside: " << (double)lo);
  }
  (void)rin; (void)rface;
  // an explicit tolerance moves the boundary
  {
    double tl = s.logu(1e-7, 0.3);
    ContactEntity fe = face_of(t, len), ne = node_of(p);
    bool in = false;
    double gap, n[3], b[3];
    nimble::ContactManager::Projection(ne, fe, in, gap, n, b, tl);
    if (depth_in && lo > -(LD)tl + tb && hi < 1 + (LD)tl - tb) VP_REQUIRE(in, "within tolerance " << tl << " of the triangle and not reported");
    if (in) VP_REQUIRE(lo > -(LD)tl - tb && !depth_out, "beyond tolerance " << tl << " of the triangle and reported");
  }
  s.label(foot_in && lo < 1e-4L ? "foot on an edge" : foot_in ? "foot inside" : foot_out ? "foot outside" : "foot at the tolerance");
  s.label(f.gap > 0 ? "in front" : depth_in ? "behind, in depth" : "behind, too deep");
  s.maxi("slimness", (double)slim);
  s.nontrivial(foot_in ? f.gap != 0 : lo > -0.2L);
}
void c21_closest(Src& s) {
  static CM* cm = nullptr;
  if (!cm) cm = new CM(fresh());
  Tri t = gen_tri(s);
  V3 p = gen_point(s, t);
  for (auto& q : t.p) s.note() << "(" << (double)q[0] << " " << (double)q[1] << " " << (double)q[2] << ") ";
  s.note() << "point (" << (double)p[0] << " " << (double)p[1] << " " << (double)p[2] << ")";
  LD big = t.L;
  for (auto& q : t.p) for (LD c : q) big = std::max(big, fabsl(c));
  for (LD c : p) big = std::max(big, fabsl(c));
  V3 w = nearest(t, p);
  Foot f = foot(t, p);
  LD dist = vnorm(vsub(p, w)), far = dist + t.L, slim = t.L * t.L / vnorm(cross(vsub(t.p[1], t.p[0]), vsub(t.p[2], t.p[0])));
  LD tol = 1e-15L * 60 * (big + far * slim * slim * (far / t.L));
  LD lo = std::min({f.b[0], f.b[1], f.b[2]}), tb = 1e-15L * 60 * slim * slim * (far / t.L + big / t.L);
  int k = (int)s.range(1, 3);
  std::vector<ContactEntity> nodes, tris;
  for (int i = 0; i < k; ++i) { nodes.push_back(node_of(p)); tris.push_back(face_of(turned(t, i), 1)); }
  std::vector<ContactEntity::vertex> cp(k);
  std::vector<nimble::ContactManager::PROJECTION_TYPE> ty(k, nimble::ContactManager::UNKNOWN);
  cm->ClosestPointProjection(nodes.data(), tris.data(), cp.data(), ty.data(), k);
  for (int i = 0; i < k; ++i) {
    V3 c = {cp[i][0], cp[i][1], cp[i][2]};
    // near an edge the last bit decides between foot and edge: the distance is what counts
    LD d = vnorm(vsub(p, c));
    VP_REQUIRE(fabsl(d - dist) <= tol, "closest point at distance " << (double)d << ", nearest point of the triangle at " << (double)dist);
    VP_REQUIRE(vnorm(vsub(c, w)) <= tol + tb * 4 * t.L + sqrtl(tol * std::max(dist, (LD)0)) * (lo < tb && lo > -tb ? 1 : 0), "closest point (" << (double)c[0] << " " << (double)c[1] << " " << (double)c[2] << "), nearest (" << (double)w[0] << " " << (double)w[1] << " " << (double)w[2] << ")");
    if (lo > tb + 1e-15L) VP_REQUIRE(ty[i] == nimble::ContactManager::FACE, "the foot lies inside and the type is " << (int)ty[i]);
    if (lo < -tb - 1e-15L) VP_REQUIRE(ty[i] == nimble::ContactManager::NODE_OR_EDGE, "the nearest point lies on the border and the type is " << (int)ty[i]);
  }
  s.label(lo > tb ? "inside" : lo < -tb ? "beyond the border" : "on the border");
  int on = 0;
  for (auto& q : t.p) on += vnorm(vsub(w, q)) == 0;
  if (lo < -tb) s.label(on ? "a vertex is nearest" : "an edge is nearest");
  s.nontrivial(dist > 0);
}
// ---------------------------------------------------------------- C22
struct Patch { int N; std::vector<V3> X; int face[4], tri, node; ContactEntity fe, ne; std::vector<double> coord; };
Patch gen_patch(Src& s) {
  Patch q;
  q.N = (int)s.range(5, 9);
  double h = any_units(s, 1e-3, 1e3, 1e-10, 1e9);
  V3 off = {0, 0, 0};
  if (s.chance(1, 4)) for (LD& c : off) c = s.usym(10) * h;
  auto p = s.perm(q.N);
  T3 Q = s.chance(1, 3) ? eye() : gen_rot(s);
  double base[4][2] = {{0, 0}, {1, 0}, {1, 1}, {0, 1}};
  q.X.resize(q.N);
  for (auto& x : q.X) for (int d = 0; d < 3; ++d) x[d] = s.usym(3) * h;
  for (int i = 0; i < 4; ++i) { q.face[i] = p[i]; q.X[p[i]] = {(base[i][0] + s.usym(0.2)) * h, (base[i][1] + s.usym(0.2)) * h, s.usym(0.15) * h}; }
  q.node = p[4];
  q.tri = (int)s.below(4);
  for (auto& x : q.X) { x = mv(Q, x); for (int d = 0; d < 3; ++d) x[d] = (double)(x[d] + off[d]); }
  return q;
}
void build(Patch& q, double len) {
  q.coord.clear();
  for (auto& x : q.X) for (int d = 0; d < 3; ++d) q.coord.push_back((double)x[d]);
  double c[9] = {0};
  int a = q.face[q.tri], b = q.face[(q.tri + 1) % 4];
  for (int d = 0; d < 3; ++d) { c[d] = (double)q.X[a][d]; c[3 + d] = (double)q.X[b][d]; c[6 + d] = (double)((q.X[q.face[0]][d] + q.X[q.face[1]][d] + q.X[q.face[2]][d] + q.X[q.face[3]][d]) / 4); }
  q.fe = ContactEntity(ContactEntity::TRIANGLE, 32, 0, c, len, a, b, q.face);
  double n[3] = {(double)q.X[q.node][0], (double)q.X[q.node][1], (double)q.X[q.node][2]};
  q.ne = ContactEntity(ContactEntity::NODE, q.node + 1, 0, n, len, q.node);
}
void c22_enforce(Src& s) {
  Patch q = gen_patch(s);
  // the node goes behind (or in front of) the chosen triangle
  build(q, 1);
  Tri t;
  t.p[0] = q.X[q.face[q.tri]]; t.p[1] = q.X[q.face[(q.tri + 1) % 4]];
  for (int d = 0; d < 3; ++d) t.p[2][d] = (q.X[q.face[0]][d] + q.X[q.face[1]][d] + q.X[q.face[2]][d] + q.X[q.face[3]][d]) / 4;
  t.L = 0;
  for (int i = 0; i < 3; ++i) t.L = std::max(t.L, vnorm(vsub(t.p[i], t.p[(i + 1) % 3])));
  LD b[3];
  b[0] = s.chance(1, 6) ? 0 : s.unit(); b[1] = s.chance(1, 6) ? 0 : s.unit();
  if (b[0] + b[1] > 1) { b[0] = 1 - b[0]; b[1] = 1 - b[1]; }
  b[2] = 1 - b[0] - b[1];
  Foot f0 = foot(t, t.p[0]);
  LD g = s.chance(1, 5) ? s.logu(1e-6, 0.5) * t.L : -s.logu(1e-6, 0.5) * t.L;
  for (int d = 0; d < 3; ++d) q.X[q.node][d] = (double)(b[0] * t.p[0][d] + b[1] * t.p[1][d] + b[2] * t.p[2][d] + g * f0.n[d]);
  build(q, (double)t.L);
  Foot f = foot(t, q.X[q.node]);
  double pen = s.chance(1, 3) ? 1 : s.chance(1, 5) ? s.logu(1e-20, 1e20) : s.logu(1e-3, 1e9);
  s.note() << q.N << " nodes, face";
  for (int n : q.face) s.note() << " " << n;
  s.note() << " triangle " << q.tri << ", node " << q.node << ", foot " << (double)f.b[0] << " " << (double)f.b[1] << " " << (double)f.b[2] << ", gap " << (double)f.gap << ", penalty " << pen;
  LD big = 0;
  for (auto& x : q.X) for (LD c : x) big = std::max(big, fabsl(c));
  LD slim = t.L * t.L / vnorm(cross(vsub(t.p[1], t.p[0]), vsub(t.p[2], t.p[0])));
  bool in = false;
  double gap = 0, n[3], bc[3];
  nimble::ContactManager::Projection(q.ne, q.fe, in, gap, n, bc);
  LD lo = std::min({f.b[0], f.b[1], f.b[2]});
  LD dg = 1e-15L * 100 * (big + t.L * slim);
  int mode = (int)s.below(4);
  int share = mode == 3 ? (int)s.range(1, 4) : 1;
  // forces already there stay
  std::vector<double> before(3 * q.N), after;
  bool zero = s.flip();
  for (double& v : before) v = zero ? 0 : (double)s.range(-8, 8) * std::ldexp(1.0, std::ilogb(pen * (double)fabsl(f.gap)));
  ContactEntity ne = q.ne, fe = q.fe;
  LD scale = 0;
  std::vector<V3> want(q.N, V3{0, 0, 0});
  bool acts = mode <= 1 ? in : f.gap < 0;
  LD G = mode <= 1 ? (LD)gap : (LD)gap;
  if (mode > 1 && !(in || f.gap > dg)) throw Discard();
  if (mode > 1 && f.gap > 0) {  // the closest point and gap of a separated pair
    gap = (double)f.gap; G = gap; for (int d = 0; d < 3; ++d) n[d] = (double)f.n[d];
  }
  double cp[3];
  for (int d = 0; d < 3; ++d) cp[d] = (double)f.x[d];
  if (mode <= 1) {
    if (!in) { if (lo > 1e-6L && f.gap < -dg && f.gap > -t.L + dg) VP_FAIL("penetrating pair not reported"); throw Discard(); }
    nimble::PenaltyContactEnforcement e;
    e.penalty = pen;
    if (mode == 0) { std::vector<double> v = before; e.EnforceContact<std::vector<double>>(ne, fe, gap, n, bc, v); after = v; }
    else {
      CM cm = fresh();
      cm.SetPenaltyParameter(pen);
      VP_REQUIRE(cm.GetPenaltyForceParam() == pen, "penalty " << cm.GetPenaltyForceParam());
      nimble_kokkos::DeviceScalarNodeView v("v", 3 * q.N);
      for (int i = 0; i < 3 * q.N; ++i) v(i) = before[i];
      cm.EnforceNodeFaceInteraction(ne, fe, gap, n, bc, v);
      after.resize(3 * q.N);
      for (int i = 0; i < 3 * q.N; ++i) after[i] = v(i);
    }
  } else {
    nimble_kokkos::DeviceScalarNodeView v("v", 3 * q.N);
    for (int i = 0; i < 3 * q.N; ++i) v(i) = before[i];
    if (mode == 2) {
      nimble::KokkosPenaltyContactEnforcement e;
      e.penalty = pen; e.contact_manager_force = v;
      e.EnforceContact(ne, fe, share, gap, n, cp);
    } else {
      struct I : nimble::ContactInterface { using nimble::ContactInterface::EnforceNodeFaceInteraction; } i;
      i.SetUpPenaltyEnforcement(pen);
      i.SetContactForce(v);
      i.EnforceNodeFaceInteraction(ne, fe, share, gap, n, cp);
    }
    after.resize(3 * q.N);
    for (int i = 0; i < 3 * q.N; ++i) after[i] = v(i);
  }
  // force on the node: along the normal, out of the face; the face gets the opposite, shared by position
  LD mag = acts ? -(LD)pen * f.gap / share : 0;
  (void)G;
  V3 F;
  for (int d = 0; d < 3; ++d) F[d] = mag * f.n[d];
  want[q.node] = vadd(want[q.node], F);
  int a = q.face[q.tri], c = q.face[(q.tri + 1) % 4];
  want[a] = vadd(want[a], F, -f.b[0]);
  want[c] = vadd(want[c], F, -f.b[1]);
  for (int i : q.face) want[i] = vadd(want[i], F, -f.b[2] / 4);
  scale = pen * fabsl(f.gap);
  for (double v : before) scale = std::max(scale, (LD)fabs(v));
  LD tol = 1e-14L * scale + (LD)pen * dg + pen * fabsl(f.gap) * 1e-15L * 100 * slim * slim * (1 + big / t.L);
  V3 tot = {0, 0, 0}, mom = {0, 0, 0};
  for (int i = 0; i < q.N; ++i) {
    V3 d;
    for (int k = 0; k < 3; ++k) d[k] = (LD)after[3 * i + k] - before[3 * i + k];
    bool part = i == q.node || i == q.face[0] || i == q.face[1] || i == q.face[2] || i == q.face[3];
    for (int k = 0; k < 3; ++k) {
      if (!part || !acts) VP_REQUIRE(after[3 * i + k] == before[3 * i + k], (acts ? "a node that is not part of the pair gets a force: " : "a separated pair gets a force: ") << (double)d[k] << " on node " << i);
      VP_REQUIRE(fabsl(d[k] - want[i][k]) <= tol, "force on node " << i << " component " << k << ": " << (double)d[k] << ", expected " << (double)want[i][k] << " (tolerance " << (double)tol << ")");
    }
    tot = vadd(tot, d);
    mom = vadd(mom, cross(vsub(q.X[i], q.X[q.node]), d));
  }
  LD st = 6 * 1e-15L * 8 * scale;
  for (int k = 0; k < 3; ++k) {
    VP_REQUIRE(fabsl(tot[k]) <= st, "net force " << (double)tot[k]);
    VP_REQUIRE(fabsl(mom[k]) <= tol * t.L * 20, "net moment " << (double)mom[k]);
  }
  s.maxi("force tolerance relative to the force", acts ? (double)(tol / (pen * fabsl(f.gap))) : 0);
  static const char* M[] = {"bare enforcement", "contact manager", "portable enforcement", "contact interface"};
  s.label(M[mode]);
  s.label(acts ? "penetrating" : "separated");
  s.nontrivial(acts);
}
// entities follow the nodes, forces come back to the right nodes
void c22_follow(Src& s) {
  Model m = solid(s, 1);
  auto P = pick_blocks(s, m), S = pick_blocks(s, m);
  s.note() << describe(m) << "; " << P.size() << " primary, " << S.size() << " secondary blocks";
  nimble::GenesisMesh g = to_mesh(m);
  static nimble::VectorCommunicator* vc = nullptr;
  if (!vc) { vc = new nimble::VectorCommunicator(3, 1, Teuchos::RCP<const Teuchos::Comm<int>>()); vc->Initialize({0}); }
  CM cm = fresh();
  { Quiet q; cm.CreateContactEntities(g, *vc, P, S); }
  nimble_kokkos::DeviceVectorNodeView u("u", m.nn()), f("f", m.nn());
  LD big = 0;
  for (auto& p : m.X) for (LD c : p) big = std::max(big, fabsl(c));
  int rounds = (int)s.range(1, 3);
  for (int r = 0; r < rounds; ++r) {
    std::vector<V3> x(m.nn());
    for (int n = 0; n < m.nn(); ++n) for (int d = 0; d < 3; ++d) { u(n, d) = s.sym((double)m.hmin * 2); x[n][d] = (double)m.X[n][d] + u(n, d); }
    cm.ApplyDisplacements(u);
    LD lo[3] = {INFINITY, INFINITY, INFINITY}, hi[3] = {-INFINITY, -INFINITY, -INFINITY};
    for (int n : cm.node_ids_) for (int d = 0; d < 3; ++d) { lo[d] = std::min(lo[d], x[n][d]); hi[d] = std::max(hi[d], x[n][d]); }
    auto box = [&](const ContactEntity& c, const std::vector<V3>& v, const char* what) {
      double got[6] = {c.get_x_min(), c.get_x_max(), c.get_y_min(), c.get_y_max(), c.get_z_min(), c.get_z_max()};
      for (int d = 0; d < 3; ++d) {
        LD a = INFINITY, b = -INFINITY;
        for (auto& p : v) { a = std::min(a, p[d]); b = std::max(b, p[d]); }
        LD mg = 0.15L * c.char_len_, e = 1e-15L * 4 * (big + 3 * m.hmax);
        VP_REQUIRE(fabsl(got[2 * d] - (a - mg)) <= e && fabsl(got[2 * d + 1] - (b + mg)) <= e, what << ": box " << got[2 * d] << ".." << got[2 * d + 1] << ", geometry " << (double)a << ".." << (double)b << ", margin " << (double)mg);
      }
    };
    for (size_t i = 0; i < cm.contact_faces_d_.extent(0); ++i) {
      const ContactEntity& c = cm.contact_faces_d_(i);
      auto id = [&](int k) { return cm.node_ids_.at(k); };
      V3 a = x[id(c.node_id_for_node_1_)], b = x[id(c.node_id_for_node_2_)], e = {0, 0, 0};
      for (int k : {c.node_id_1_for_fictitious_node_, c.node_id_2_for_fictitious_node_, c.node_id_3_for_fictitious_node_, c.node_id_4_for_fictitious_node_}) e = vadd(e, x[id(k)], 0.25L);
      VP_REQUIRE(c.coord_1_x_ == a[0] && c.coord_1_y_ == a[1] && c.coord_1_z_ == a[2] && c.coord_2_x_ == b[0] && c.coord_2_y_ == b[1] && c.coord_2_z_ == b[2], "contact face does not follow its nodes");
      LD t = 1e-15L * 8 * (big + 2 * m.hmax);
      VP_REQUIRE(fabsl(c.coord_3_x_ - e[0]) <= t && fabsl(c.coord_3_y_ - e[1]) <= t && fabsl(c.coord_3_z_ - e[2]) <= t, "centre of a contact face does not follow its nodes");
      box(c, {a, b, e}, "contact face");
    }
    for (size_t i = 0; i < cm.contact_nodes_d_.extent(0); ++i) {
      const ContactEntity& c = cm.contact_nodes_d_(i);
      V3 a = x[cm.node_ids_.at(c.node_id_for_node_1_)];
      VP_REQUIRE(c.coord_1_x_ == a[0] && c.coord_1_y_ == a[1] && c.coord_1_z_ == a[2], "contact node does not follow its node");
      box(c, {a}, "contact node");
    }
    if (!cm.node_ids_.empty()) {
      double b[6];
      cm.BoundingBox(b[0], b[1], b[2], b[3], b[4], b[5]);
      LD L = 0;
      for (int d = 0; d < 3; ++d) { VP_REQUIRE(b[2 * d] == lo[d] && b[2 * d + 1] == hi[d], "box of the contact model: " << b[2 * d] << ".." << b[2 * d + 1] << ", nodes " << (double)lo[d] << ".." << (double)hi[d]); L = std::max(L, hi[d] - lo[d]); }
      double av = cm.BoundingBoxAverageCharacteristicLengthOverAllRanks();
      VP_REQUIRE(near(av, (double)L, 1e-14, 1e-15 * (double)big), "longest edge of the box " << av << ", expected " << (double)L);
    }
    // forces
    std::vector<double> was(3 * m.nn());
    for (int n = 0; n < m.nn(); ++n) for (int d = 0; d < 3; ++d) f(n, d) = was[3 * n + d] = (double)s.range(-9, 9) + 0.5;
    std::vector<double> put(3 * cm.node_ids_.size());
    for (size_t k = 0; k < put.size(); ++k) cm.force_d_(k) = put[k] = s.usym(1e3);
    cm.GetForces(f);
    std::vector<double> want = was;
    for (size_t k = 0; k < cm.node_ids_.size(); ++k) for (int d = 0; d < 3; ++d) want[3 * cm.node_ids_[k] + d] = put[3 * k + d];
    for (int n = 0; n < m.nn(); ++n) for (int d = 0; d < 3; ++d) VP_REQUIRE(f(n, d) == want[3 * n + d], "contact force of node " << n << " component " << d << " is " << f(n, d) << ", expected " << want[3 * n + d]);
    cm.ZeroContactForce();
    for (size_t k = 0; k < put.size(); ++k) VP_REQUIRE(cm.force_d_(k) == 0, "contact force not cleared");
  }
  s.nontrivial(cm.numContactFaces() > 0 && cm.numContactNodes() > 0);
}
// ---------------------------------------------------------------- C23
void c23_entities(Src& s) {
  int n = (int)s.size(0, 12);
  std::vector<ContactEntity> v, w(n);
  bool view = s.flip();
  LD big = 0;
  for (int i = 0; i < n; ++i) {
    Patch q = gen_patch(s);
    double len = s.chance(1, 6) ? 0 : s.logu(1e-3, 1e3);
    build(q, len);
    if (s.flip()) { for (auto& x : q.X) for (LD& c : x) c = (double)(c + s.usym(1)); q.coord.clear(); for (auto& x : q.X) for (int d = 0; d < 3; ++d) q.coord.push_back((double)x[d]); q.fe.SetCoordinates(q.coord.data()); q.ne.SetCoordinates(q.coord.data()); }
    q.fe.contact_entity_global_id_ = (int)s.below(1ull << 31);
    q.fe.local_id_ = i;
    for (auto* c : {&q.fe, &q.ne}) {
      bool tri = c == &q.fe;
      double x[9] = {c->coord_1_x_, c->coord_1_y_, c->coord_1_z_, c->coord_2_x_, c->coord_2_y_, c->coord_2_z_, c->coord_3_x_, c->coord_3_y_, c->coord_3_z_};
      double b[6] = {c->get_x_min(), c->get_x_max(), c->get_y_min(), c->get_y_max(), c->get_z_min(), c->get_z_max()};
      auto cen = c->centroid();
      for (int d = 0; d < 3; ++d) {
        LD lo = x[d], hi = x[d], mean = x[d];
        if (tri) { for (int k = 1; k < 3; ++k) { lo = std::min(lo, (LD)x[3 * k + d]); hi = std::max(hi, (LD)x[3 * k + d]); mean += x[3 * k + d]; } mean /= 3; }
        LD e = 1e-15L * (fabsl(lo) + fabsl(hi) + len);
        VP_REQUIRE(fabsl(b[2 * d] - (lo - 0.15L * len)) <= e && fabsl(b[2 * d + 1] - (hi + 0.15L * len)) <= e, "box " << b[2 * d] << ".." << b[2 * d + 1] << ", geometry " << (double)lo << ".." << (double)hi << ", characteristic length " << len);
        VP_REQUIRE(fabsl(cen[d] - mean) <= 4 * e, "centroid " << cen[d] << ", expected " << (double)mean);
      }
      ContactEntity o;
      c->ExportGeometryInto(o);
      VP_REQUIRE(o.coord_1_x_ == x[0] && o.coord_1_y_ == x[1] && o.coord_1_z_ == x[2] && o.coord_2_x_ == x[3] && o.coord_2_y_ == x[4] && o.coord_2_z_ == x[5] && o.coord_3_x_ == x[6] && o.coord_3_y_ == x[7] && o.coord_3_z_ == x[8], "exported coordinates");
      VP_REQUIRE(o.entity_type_ == c->entity_type_ && o.num_nodes_ == c->num_nodes_ && o.char_len_ == c->char_len_, "exported type or length");
      VP_REQUIRE(o.get_x_min() == b[0] && o.get_x_max() == b[1] && o.get_y_min() == b[2] && o.get_y_max() == b[3] && o.get_z_min() == b[4] && o.get_z_max() == b[5], "exported box");
    }
    v.push_back(q.fe);
  }
  (void)big;
  s.note() << n << " faces";
  std::vector<char> buf(s.below(50), 'x');
  if (n == 0 && buf.empty()) buf.push_back(0);
  if (view) {
    nimble_kokkos::HostContactEntityArrayView a("a", n), b("b", n);
    for (int i = 0; i < n; ++i) a(i) = v[i];
    nimble::SerializeContactFaces(n, a, buf);
    nimble::UnserializeContactFaces(n, b, buf);
    for (int i = 0; i < n; ++i) w[i] = b(i);
  } else {
    nimble::SerializeContactFaces(n, v.data(), buf);
    nimble::UnserializeContactFaces(n, w.data(), buf);
  }
  for (int i = 0; i < n; ++i) {
    auto &a = v[i], &b = w[i];
    VP_REQUIRE(a.coord_1_x_ == b.coord_1_x_ && a.coord_1_y_ == b.coord_1_y_ && a.coord_1_z_ == b.coord_1_z_ && a.coord_2_x_ == b.coord_2_x_ && a.coord_2_y_ == b.coord_2_y_ && a.coord_2_z_ == b.coord_2_z_ && a.coord_3_x_ == b.coord_3_x_ && a.coord_3_y_ == b.coord_3_y_ && a.coord_3_z_ == b.coord_3_z_, "coordinates of face " << i << " of " << n << " after a trip");
    VP_REQUIRE(a.contact_entity_global_id() == b.contact_entity_global_id(), "id of face " << i << " after a trip");
    VP_REQUIRE(a.node_id_for_node_1_ == b.node_id_for_node_1_ && a.node_id_for_node_2_ == b.node_id_for_node_2_ && a.node_id_1_for_fictitious_node_ == b.node_id_1_for_fictitious_node_ && a.node_id_2_for_fictitious_node_ == b.node_id_2_for_fictitious_node_ && a.node_id_3_for_fictitious_node_ == b.node_id_3_for_fictitious_node_ && a.node_id_4_for_fictitious_node_ == b.node_id_4_for_fictitious_node_, "node ids of face " << i << " after a trip");
    VP_REQUIRE(a.get_x_min() == b.get_x_min() && a.get_x_max() == b.get_x_max() && a.get_y_min() == b.get_y_min() && a.get_y_max() == b.get_y_max() && a.get_z_min() == b.get_z_min() && a.get_z_max() == b.get_z_max(), "box of face " << i << " after a trip");
    VP_REQUIRE(a.char_len_ == b.char_len_ && b.entity_type_ == ContactEntity::TRIANGLE && b.num_nodes_ == 3, "type or length of face " << i << " after a trip");
    auto p = a.centroid(), q = b.centroid();
    for (int d = 0; d < 3; ++d) VP_REQUIRE(near(p[d], q[d], 1e-15, 0), "centroid of face " << i << " after a trip");
  }
  s.label(view ? "view" : "array");
  s.nontrivial(n > 1);
}
void c23_command(Src& s) {
  std::set<std::string> seen = {"primary_blocks", "master_blocks", "secondary_blocks", "slave_blocks", "penalty_parameter"};
  auto gap = [&]() { std::string r; long k = s.size(1, 3); for (long i = 0; i < k; ++i) r += s.chance(1, 4) ? '\t' : ' '; return r; };
  std::vector<std::string> A, B;
  int na = (int)s.range(0, 4), nb = (int)s.range(0, 4);
  for (int i = 0; i < na; ++i) A.push_back(gen_name(s, seen, "block"));
  for (int i = 0; i < nb; ++i) B.push_back(s.chance(1, 8) && na ? A[s.below(na)] : gen_name(s, seen, "block"));
  for (auto* v : {&A, &B}) for (auto& q : *v) if (s.chance(1, 5)) {   // names that begin or end like a key
    std::string k = s.pick<std::string>({"primary_blocks", "master_blocks", "secondary_blocks", "slave_blocks", "penalty_parameter"});
    if (s.flip()) k = k.substr(0, s.range(1, (long)k.size()));
    q = s.flip() ? k + "_" + q : s.flip() ? q + "_" + k : k.substr(0, k.size() - 1);
    static const std::set<std::string> keys = {"primary_blocks", "master_blocks", "secondary_blocks", "slave_blocks", "penalty_parameter"};
    if (q.empty() || keys.count(q)) q = "b";
  }
  double pen = s.chance(1, 3) ? (double)s.range(1, 1000) : s.logu(1e-6, 1e12);
  std::string ps = s.chance(1, 3) ? num(pen) : (s.flip() ? "1.0e5" : num(pen));
  pen = strtod(ps.c_str(), 0);
  std::string k1 = s.flip() ? "primary_blocks" : "master_blocks", k2 = s.flip() ? "secondary_blocks" : "slave_blocks", k3 = "penalty_parameter";
  int bad = s.chance(2, 5) ? (int)s.range(1, 7) : 0;
  if (bad == 1) k1 = s.pick<std::string>({"primary_block", "blocks", "Primary_Blocks", "secondary_blocks"});
  if (bad == 4) ps = "";
  if (bad == 5) ps = s.pick<std::string>({"abc", "1.0e5x", "--3", "1,5", "e5"});
  std::string c = s.chance(1, 4) ? gap() : "";
  c += k1;
  for (auto& a : A) c += gap() + a;
  if (bad != 2) c += gap() + k2;
  for (auto& b : B) c += gap() + b;
  if (bad != 3) c += gap() + k3;
  if (!ps.empty() && bad != 3) c += gap() + ps;
  if (bad == 6) { c = ""; }
  if (bad == 7) { c = k1; for (auto& a : A) c += gap() + a; c += gap() + k3 + gap() + ps; for (auto& b : B) c += gap() + b; }
  if (s.chance(1, 4)) c += gap();
  s.note() << "\"" << c << "\"";
  std::vector<std::string> a, b;
  double p = -1;
  bool threw = false;
  try { nimble::ParseContactCommand(c, a, b, p); } catch (const std::exception&) { threw = true; }
  if (bad) VP_REQUIRE(threw, "a malformed contact command was accepted, penalty " << p);
  else {
    VP_REQUIRE(!threw, "a valid contact command was rejected");
    VP_REQUIRE(a == A && b == B, "block names: " << a.size() << " primary and " << b.size() << " secondary, written were " << A.size() << " and " << B.size());
    VP_REQUIRE(p == pen, "penalty " << p << ", written was " << ps);
  }
  s.label(bad ? "malformed " + std::to_string(bad) : "valid");
  s.nontrivial(bad || (na > 0 && nb > 0));
}
}  // namespace
int main(int argc, char** argv) {
  Hooks hk;
  hk.init = [] {
    int argc = 1;
    static char n[] = "p_contact";
    static char* av[] = {n, nullptr};
    char** a = av;
    MPI_Init(&argc, &a);
    Kokkos::initialize(argc, a);
  };
  hk.fini = [] { int f = 0; MPI_Initialized(&f); if (f) MPI_Finalize(); };
  add_probe("C20", "entity-id-overflow", "entity ids of faces of elements whose id plus the id offset is 2^26 or more collide (32-bit ids with 5 bits for face and triangle): faces of elements 1 and 1+2^27 get the same id", [](Src&) {
    nimble::GenesisMesh g;
    std::vector<double> x, y, z;
    std::vector<int> nid, conn;
    for (int b = 0; b < 2; ++b) for (int i = 0; i < 8; ++i) { x.push_back(HS[i][0] + 5 * b); y.push_back(HS[i][1]); z.push_back(HS[i][2]); nid.push_back(8 * b + i); conn.push_back(8 * b + i); }
    std::vector<int> el = {0, 1 << 27};
    g.Initialize("none", nid, x, y, z, el, {1}, {{1, "block_1"}}, {{1, el}}, {{1, 8}}, {{1, conn}});
    std::vector<std::vector<int>> f;
    std::vector<int> id;
    nimble::ContactManager::SkinBlocks(g, {1}, 15, f, id);
    return std::set<int>(id.begin(), id.end()).size() != id.size();
  });
  std::vector<Check> c = {
    {"C20", "skin", c20_skin, 30000, 500000, "solids with holes and turned elements, random blocks: exposed faces, ids, orientation against a face count; non-trivial: several elements and a surface", {}},
    {"C20", "entities", c20_entities, 30000, 500000, "contact faces and nodes of random primary and secondary blocks; non-trivial: both surfaces exist", {}},
    {"C20", "entities-parallel", c20_entities, 6000, 90000, "the same on decomposed meshes, union over ranks; non-trivial: the secondary surface is shared by ranks", {2, 3, 4}},
    {"C21", "projection", c21_projection, 4000000, 80000000, "triangles and points near faces, edges, vertices and tolerances, every starting vertex; non-trivial: near contact", {}},
    {"C21", "closest-point", c21_closest, 4000000, 80000000, "nearest point of a triangle; non-trivial: the point is off the triangle", {}},
    {"C22", "enforce", c22_enforce, 2000000, 40000000, "node and quarter face, forces against the balance of forces and moments and the distribution rule; non-trivial: penetrating", {}},
    {"C22", "follow", c22_follow, 30000, 400000, "displaced contact models: entities, boxes, forces back to nodes; non-trivial: faces and nodes exist", {}},
    {"C23", "entities", c23_entities, 600000, 12000000, "boxes, export, message round trip; non-trivial: more than one face", {}},
    {"C23", "command", c23_command, 2000000, 40000000, "valid and malformed contact commands; non-trivial: malformed, or blocks on both sides", {}},
  };
  return vp_main(argc, argv, c, hk);
}
