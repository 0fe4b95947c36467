// C18 shared-node reduction, C19 message packing and collectives, C28 dense id spaces (all under mpirun except packing)
#include "vp.h"
#include <mpi.h>
#include <Kokkos_Core.hpp>
#include <Tpetra_Core.hpp>
#include <algorithm>
#include <array>
#include <numeric>
#include "nimble_vector_communicator.h"
#include "nimble.mpi.mpicontext.h"
#include "nimble.mpi.reduction.h"
#include "nimble.mpi.reduction_utils.h"
#include "nimble.mpi.serialization.h"
using namespace vp;
namespace {
template <class T> std::string show(const std::vector<T>& v) {
  std::ostringstream o; o.precision(17); o << "[";
  for (size_t i = 0; i < v.size(); ++i) o << (i ? " " : "") << v[i];
  o << "]"; return o.str();
}
// ---------------------------------------------------------------- C18
struct Layout { std::vector<int> ids; std::vector<std::vector<int>> on; std::vector<std::vector<int>> holders; };  // on[r]: indices into ids
Layout gen_layout(Src& s, bool nonempty) {
  Layout L;
  int n = (int)s.size(1, 40), kind = (int)s.below(4);
  std::set<int> used;
  while ((int)L.ids.size() < n) {
    int id = kind == 0 ? (int)L.ids.size() : kind == 1 ? (int)s.below(3 * n) : kind == 2 ? (int)s.below(1000000) : 1000 * (int)L.ids.size() + (int)s.below(7);
    while (used.count(id)) ++id;
    used.insert(id); L.ids.push_back(id);
  }
  L.on.resize(s.np); L.holders.resize(n);
  int dens = (int)s.range(1, 7);
  for (int i = 0; i < n; ++i) {
    bool any = false;
    for (int r = 0; r < s.np; ++r) if (s.chance(dens, 8)) { L.on[r].push_back(i); any = true; }
    if (!any) L.on[s.below(s.np)].push_back(i);
  }
  if (nonempty) for (int r = 0; r < s.np; ++r) if (L.on[r].empty()) L.on[r].push_back((int)s.below(n));
  for (int r = 0; r < s.np; ++r) {
    std::vector<int> p = s.perm((int)L.on[r].size()), q;
    for (int k : p) q.push_back(L.on[r][k]);
    L.on[r] = q;
    for (int i : q) L.holders[i].push_back(r);
  }
  s.note() << s.np << " ranks; nodes per rank:";
  for (int r = 0; r < s.np; ++r) { s.note() << " {"; for (int i : L.on[r]) s.note() << " " << L.ids[i]; s.note() << " }"; }
  return L;
}
std::vector<int> my_ids(const Layout& L, int rank) { std::vector<int> v; for (int i : L.on[rank]) v.push_back(L.ids[i]); return v; }
// the value rank r contributes for component j of node i in reduction k: exactly representable, sums exact
double contribution(uint64_t seed, int r, int i, int j, int k) {
  uint64_t h = mix(seed ^ mix(((uint64_t)r << 48) ^ ((uint64_t)i << 24) ^ ((uint64_t)j << 12) ^ (uint64_t)k));
  double v = (double)(long)(h % 2000001) - 1000000.0;
  return h >> 60 == 0 ? 0.0 : v / 64.0;
}
struct Table { std::vector<double>& d; int w; double& operator()(int i, int j) { return d[j * (d.size() / w) + i]; } };  // component-major
void free_comms(nimble::reduction::ReductionInfo& ri) { for (auto& c : ri.cliques) if (c.clique_comm != MPI_COMM_NULL) MPI_Comm_free(&c.clique_comm); }

void check_sums(Src& s, const Layout& L, uint64_t seed, int w, int k, const std::function<double(int, int)>& get, const char* how) {
  for (int a = 0; a < (int)L.on[s.rank].size(); ++a)
    for (int j = 0; j < w; ++j) {
      int i = L.on[s.rank][a];
      double sum = 0;
      for (int r : L.holders[i]) sum += contribution(seed, r, i, j, k);
      double g = get(a, j);
      VP_REQUIRE(g == sum, how << " reduction " << k << ", " << w << " components: node " << L.ids[i] << " component " << j << " is " << g << " on rank " << s.rank << ", the sum over its " << L.holders[i].size() << " holders is " << sum);
    }
}
void classify(Src& s, const Layout& L) {
  int shared = 0, multi = 0;
  std::set<std::vector<int>> groups;
  for (auto& h : L.holders) { if (h.size() > 1) { ++shared; groups.insert(h); } if (h.size() > 2) ++multi; }
  s.label("np=" + std::to_string(s.np));
  if (multi) s.label("nodes on more than two ranks");
  for (auto& o : L.on) if (o.empty()) s.label("a rank without nodes");
  s.label(groups.size() > 3 ? "more than three groups" : "up to three groups");
  s.nontrivial(shared > 0);
}
// owner of every shared node, each rank-sharing group once
void check_groups(Src& s, const Layout& L, nimble::reduction::ReductionInfo& ri) {
  std::map<std::vector<int>, std::vector<int>> want;  // holders -> local indices
  for (int a = 0; a < (int)L.on[s.rank].size(); ++a) { auto& h = L.holders[L.on[s.rank][a]]; if (h.size() > 1) want[h].push_back(a); }
  std::map<std::vector<int>, int> seen;
  // every rank must take part in the exchange that names a group's ranks, group by group in the same order
  for (auto& c : ri.cliques) {
    std::vector<int> ranks = c.GetMPICommWorldRanks();
    std::vector<int> ix(c.GetIndices(), c.GetIndices() + c.GetNumIndices());
    if (ix.empty()) continue;  // nodes held by one rank only
    VP_REQUIRE(want.count(ranks), "a group of ranks " << show(ranks) << " was made for rank " << s.rank << "; no node is shared by exactly those");
    VP_REQUIRE(++seen[ranks] == 1, "the group of ranks " << show(ranks) << " was made twice");
    std::vector<int> so = ix;
    std::sort(so.begin(), so.end());
    VP_REQUIRE(so == want[ranks], "group " << show(ranks) << " holds local nodes " << show(so) << ", shared by exactly those ranks: " << show(want[ranks]));
  }
  VP_REQUIRE(seen.size() == want.size(), seen.size() << " groups on rank " << s.rank << ", " << want.size() << " sets of ranks share its nodes");
}
void check_owners(Src& s, const Layout& L, std::vector<int> ix, std::vector<int> own) {
  VP_REQUIRE(ix.size() == own.size(), "lengths of the boundary node lists");
  std::map<int, int> m;
  for (size_t k = 0; k < ix.size(); ++k) {
    VP_REQUIRE(ix[k] >= 0 && ix[k] < (int)L.on[s.rank].size(), "boundary node index " << ix[k]);
    VP_REQUIRE(m.emplace(ix[k], own[k]).second, "local node " << ix[k] << " listed twice as shared");
  }
  for (int a = 0; a < (int)L.on[s.rank].size(); ++a) {
    auto& h = L.holders[L.on[s.rank][a]];
    VP_REQUIRE(m.count(a) == (h.size() > 1), "node " << L.ids[L.on[s.rank][a]] << " held by " << h.size() << " ranks " << (m.count(a) ? "is" : "is not") << " listed as shared");
    if (h.size() > 1) VP_REQUIRE(m[a] == h[0], "owner of node " << L.ids[L.on[s.rank][a]] << " is rank " << m[a] << " on rank " << s.rank << ", lowest holder " << h[0]);
  }
}
void reduce_ops(Src& s, const Layout& L, uint64_t seed, const std::function<void(int, double*)>& flat, const std::function<void(int, Table&)>& lookup, std::vector<int> widths, const char* who) {
  int nops = (int)s.range(1, 4), n = (int)L.on[s.rank].size();
  for (int k = 0; k < nops; ++k) {
    int w = widths[s.below(widths.size())];
    bool lk = lookup && s.flip();
    s.note() << "; " << (lk ? "lookup" : "array") << " of " << w;
    std::vector<double> d(n * w + 4, 0.5);  // guard values behind the data
    for (int a = 0; a < n; ++a)
      for (int j = 0; j < w; ++j) {
        double c = contribution(seed, s.rank, L.on[s.rank][a], j, k);
        if (lk) d[j * n + a] = c; else d[a * w + j] = c;
      }
    if (lk) {
      std::vector<double> e(d.begin(), d.begin() + n * w);
      Table t{e, w};
      lookup(w, t);
      check_sums(s, L, seed, w, k, [&](int a, int j) { return e[j * n + a]; }, who);
    } else {
      flat(w, d.data());
      check_sums(s, L, seed, w, k, [&](int a, int j) { return d[a * w + j]; }, who);
      for (int g = 0; g < 4; ++g) VP_REQUIRE(d[n * w + g] == 0.5, "wrote behind the field");
    }
  }
}
void c18_native(Src& s) {
  Layout L = gen_layout(s, false);
  uint64_t seed = s.raw64();
  auto ids = my_ids(L, s.rank);
  nimble::mpicontext ctx{MPI_COMM_WORLD};
  std::unique_ptr<nimble::reduction::ReductionInfo> ri(nimble::reduction::GenerateReductionInfo(ids, ctx));
  check_groups(s, L, *ri);
  std::vector<int> ix, own;
  ri->GetAllIndices(ix, own);
  check_owners(s, L, ix, own);
  reduce_ops(s, L, seed, [&](int w, double* d) { ri->PerformReduction(d, w); }, [&](int w, Table& t) { ri->PerformReduction(t, w); }, {1, 2, 3}, "native");
  free_comms(*ri);
  classify(s, L);
}
// the communicator the application uses: native only, or Tpetra for plain arrays
void c18_communicator(Src& s) {
  Layout L = gen_layout(s, s.chance(3, 4));
  uint64_t seed = s.raw64();
  bool tp = s.chance(2, 3);
  int dim = s.flip() ? 3 : 2;
  auto ids = my_ids(L, s.rank);
  s.note() << "; dimension " << dim << (tp ? ", Tpetra" : "");
  comm_type comm;
  if (tp) comm = Tpetra::getDefaultComm();
  nimble::VectorCommunicator vc(dim, (unsigned)ids.size(), comm);
  vc.Initialize(ids);
  std::vector<int> ix, own;
  vc.GetPartitionBoundaryNodeLocalIds(ix, own);
  check_owners(s, L, ix, own);
  std::vector<int> w = {1, 2, 3};
  reduce_ops(s, L, seed, [&](int k, double* d) { vc.VectorReduction(k, d); }, [&](int k, Table& t) { vc.VectorReduction(k, t); }, w, tp ? "Tpetra" : "native");
  classify(s, L);
  s.label(tp ? "Tpetra" : "native");
}

// ---------------------------------------------------------------- C19 packing
template <class T> struct Gen;
template <> struct Gen<int> { static int make(Src& s, int) { switch (s.below(5)) { case 0: return 0; case 1: return (int)s.range(-9, 9); case 2: return INT32_MAX; case 3: return INT32_MIN; default: return (int)(uint32_t)s.below(1ull << 32); } } };
template <> struct Gen<char> { static char make(Src& s, int) { return (char)s.below(256); } };
template <> struct Gen<bool> { static bool make(Src& s, int) { return s.flip(); } };
template <> struct Gen<short> { static short make(Src& s, int) { return (short)s.below(65536); } };
template <> struct Gen<float> { static float make(Src& s, int) { return (float)s.sym(1e6); } };
template <> struct Gen<size_t> { static size_t make(Src& s, int) { return s.raw64(); } };
template <> struct Gen<double> { static double make(Src& s, int) { return s.chance(1, 8) ? s.pick({(double)INFINITY, -(double)INFINITY, 5e-324, -0.0, 1.7976931348623157e308}) : s.sym(1e6); } };
template <class A, class B> struct Gen<std::pair<A, B>> { static std::pair<A, B> make(Src& s, int d) { A a = Gen<A>::make(s, d); return {a, Gen<B>::make(s, d)}; } };
template <class T> struct Gen<std::vector<T>> { static std::vector<T> make(Src& s, int d) { std::vector<T> v; int n = (int)s.size(0, d > 1 ? 4 : 12); for (int i = 0; i < n; ++i) v.push_back(Gen<T>::make(s, d + 1)); return v; } };
template <class T, size_t N> struct Gen<std::array<T, N>> { static std::array<T, N> make(Src& s, int d) { std::array<T, N> v; for (auto& x : v) x = Gen<T>::make(s, d + 1); return v; } };
// number of bytes the value's own numbers and the lengths of its vectors take
template <class T> struct Bytes { static size_t of(const T&) { return sizeof(T); } };
template <class A, class B> struct Bytes<std::pair<A, B>> { static size_t of(const std::pair<A, B>& p) { return Bytes<A>::of(p.first) + Bytes<B>::of(p.second); } };
template <class T> struct Bytes<std::vector<T>> { static size_t of(const std::vector<T>& v) { size_t n = 0; for (auto& x : v) n += Bytes<T>::of(x); return n; } };
template <class T, size_t N> struct Bytes<std::array<T, N>> { static size_t of(const std::array<T, N>& v) { size_t n = 0; for (auto& x : v) n += Bytes<T>::of(x); return n; } };

template <class T, class W> void roundtrip_in(Src& s, const char* name, const char* wname) {
  namespace z = nimble::serialization;
  s.note() << name << " in words of " << wname;
  s.label(name);
  T v = Gen<T>::make(s, 0);
  size_t size = z::serial_t<T>::size(v);
  VP_REQUIRE(size >= Bytes<T>::of(v), "size " << size << " is less than the " << Bytes<T>::of(v) << " bytes of its numbers");
  // raw form, buffer with guard bytes and nothing to spare
  std::vector<char> buf(size + 16, (char)0x5a);
  char* p = buf.data();
  z::serial_t<T>::pack(v, p);
  VP_REQUIRE((size_t)(p - buf.data()) == size, "packing wrote " << (p - buf.data()) << " bytes, its size is " << size);
  for (int i = 0; i < 16; ++i) VP_REQUIRE(buf[size + i] == 0x5a, "packing wrote behind its size");
  T w = Gen<T>::make(s, 0);  // the destination holds something else
  p = buf.data();
  z::serial_t<T>::unpack(w, p);
  VP_REQUIRE((size_t)(p - buf.data()) == size, "unpacking consumed " << (p - buf.data()) << " of " << size << " bytes");
  VP_REQUIRE(w == v, "the unpacked value differs");
  // two values in one buffer
  T v2 = Gen<T>::make(s, 0);
  std::vector<char> both(size + z::serial_t<T>::size(v2));
  p = both.data();
  z::serial_t<T>::pack(v, p);
  z::serial_t<T>::pack(v2, p);
  VP_REQUIRE(p == both.data() + both.size(), "two values in one buffer: wrong length");
  T a, b;
  p = both.data();
  z::serial_t<T>::unpack(a, p);
  z::serial_t<T>::unpack(b, p);
  VP_REQUIRE(a == v && b == v2, "two values in one buffer differ after unpacking");
  // buffer forms
  std::vector<W> wb((size_t)s.size(0, 30));
  if (s.flip()) wb.reserve((size_t)s.size(0, 100));
  bool keep = s.flip();
  size_t r = keep ? z::pack_avoid_resize(v, wb) : z::pack(v, wb);
  VP_REQUIRE(r == size, "packing into a buffer returned " << r << ", its size is " << size);
  VP_REQUIRE(wb.size() * sizeof(W) >= size, "the buffer holds " << wb.size() * sizeof(W) << " bytes of " << size);
  T c = Gen<T>::make(s, 0);
  z::unpack(c, wb);
  VP_REQUIRE(c == v, "the value unpacked from the buffer differs");
  // the same buffer again
  size_t r2 = z::pack_avoid_resize(v2, wb);
  VP_REQUIRE(r2 == both.size() - size && wb.size() * sizeof(W) >= r2, "packing into a used buffer");
  z::unpack(c, wb);
  VP_REQUIRE(c == v2, "the value unpacked from a used buffer differs");
  s.nontrivial(size > 8);
}
template <class T> void roundtrip(Src& s, const char* name) {
  switch (s.below(3)) {
    case 0: roundtrip_in<T, char>(s, name, "char"); break;
    case 1: roundtrip_in<T, int>(s, name, "int"); break;
    default: roundtrip_in<T, double>(s, name, "double");
  }
}
typedef std::pair<int, double> P1;
typedef std::pair<char, double> P2;
typedef std::pair<std::vector<int>, double> P3;
typedef std::pair<std::vector<char>, std::vector<double>> P4;
typedef std::array<int, 3> A1;
typedef std::array<double, 4> A2;
typedef std::array<std::vector<int>, 3> A3;
typedef std::array<P3, 2> A4;
void c19_pack(Src& s) {
  switch (s.below(30)) {
    case 0: roundtrip<int>(s, "int"); break;
    case 1: roundtrip<double>(s, "double"); break;
    case 2: roundtrip<size_t>(s, "size_t"); break;
    case 3: roundtrip<char>(s, "char"); break;
    case 4: roundtrip<float>(s, "float"); break;
    case 5: roundtrip<std::vector<int>>(s, "vector<int>"); break;
    case 6: roundtrip<std::vector<double>>(s, "vector<double>"); break;
    case 7: roundtrip<std::vector<char>>(s, "vector<char>"); break;
    case 8: roundtrip<std::vector<short>>(s, "vector<short>"); break;
    case 9: roundtrip<std::vector<std::vector<int>>>(s, "vector<vector<int>>"); break;
    case 10: roundtrip<std::vector<std::vector<std::vector<double>>>>(s, "vector<vector<vector<double>>>"); break;
    case 11: roundtrip<P1>(s, "pair<int,double>"); break;
    case 12: roundtrip<P2>(s, "pair<char,double>"); break;
    case 13: roundtrip<P3>(s, "pair<vector<int>,double>"); break;
    case 14: roundtrip<P4>(s, "pair<vector<char>,vector<double>>"); break;
    case 15: roundtrip<std::vector<P1>>(s, "vector<pair<int,double>>"); break;
    case 16: roundtrip<std::vector<P3>>(s, "vector<pair<vector<int>,double>>"); break;
    case 17: roundtrip<std::vector<P4>>(s, "vector<pair<vector<char>,vector<double>>>"); break;
    case 18: roundtrip<A1>(s, "array<int,3>"); break;
    case 19: roundtrip<A2>(s, "array<double,4>"); break;
    case 20: roundtrip<A3>(s, "array<vector<int>,3>"); break;
    case 21: roundtrip<A4>(s, "array<pair<vector<int>,double>,2>"); break;
    case 22: roundtrip<std::vector<A1>>(s, "vector<array<int,3>>"); break;
    case 23: roundtrip<std::vector<A3>>(s, "vector<array<vector<int>,3>>"); break;
    case 24: roundtrip<std::pair<A1, std::vector<A2>>>(s, "pair<array<int,3>,vector<array<double,4>>>"); break;
    case 25: roundtrip<std::pair<P1, P2>>(s, "pair<pair<int,double>,pair<char,double>>"); break;
    case 26: roundtrip<std::array<P1, 3>>(s, "array<pair<int,double>,3>"); break;
    case 27: roundtrip<std::pair<std::pair<int, std::vector<P2>>, A3>>(s, "pair<pair<int,vector<pair<char,double>>>,array<vector<int>,3>>"); break;
    case 28: roundtrip<std::vector<std::vector<P1>>>(s, "vector<vector<pair<int,double>>>"); break;
    default: roundtrip<std::array<std::array<std::vector<double>, 2>, 2>>(s, "array<array<vector<double>,2>,2>");
  }
}

// ---------------------------------------------------------------- C19 collectives
std::vector<int> ints(uint64_t seed, int n, int salt) { std::vector<int> v(n); for (int i = 0; i < n; ++i) v[i] = (int)(uint32_t)mix(seed + 1000003u * salt + i); return v; }
std::string text(uint64_t seed, int n, int salt) { std::string v(n, ' '); for (int i = 0; i < n; ++i) v[i] = (char)(mix(seed + 7919u * salt + i) % 95 + 32); return v; }
std::vector<int> lengths(Src& s, int hi) {
  std::vector<int> n(s.np);
  int kind = (int)s.below(4);
  int same = (int)s.size(0, hi);
  for (int r = 0; r < s.np; ++r) n[r] = kind == 0 ? same : s.chance(1, 4) ? 0 : (int)s.size(0, hi);
  return n;
}
std::vector<int> concat(const std::vector<std::vector<int>>& v) { std::vector<int> o; for (auto& x : v) o.insert(o.end(), x.begin(), x.end()); return o; }
void c19_collectives(Src& s) {
  bool sub = s.np > 2 && s.chance(1, 4);   // a communicator that is not the world: the ranks in reverse order
  nimble::mpicontext world{MPI_COMM_WORLD};
  MPI_Comm own = MPI_COMM_NULL;
  if (sub) { own = world.split_by_color(3, s.np - world.get_rank()); }
  nimble::mpicontext ctx = sub ? nimble::mpicontext{own} : world;
  int me = ctx.get_rank(), np = ctx.get_size();
  VP_REQUIRE(np == s.np && me == (sub ? s.np - 1 - s.rank : s.rank), "rank " << me << " of " << np);
  VP_REQUIRE(ctx.get_root() == 0 && ctx.is_root() == (me == 0), "root");
  if (sub) s.label("another communicator");
  int ops = (int)s.range(1, 5);
  s.note() << np << " ranks:";
  for (int o = 0; o < ops; ++o) {
    uint64_t seed = s.raw64();
    int op = (int)s.below(16);
    std::vector<int> len = lengths(s, 20);
    std::vector<std::vector<int>> all(np);
    for (int r = 0; r < np; ++r) all[r] = ints(seed, len[r], r);
    s.note() << " op " << op << " lengths " << show(len);
    for (int r = 0; r < np; ++r) if (len[r] == 0) s.label("empty contributions");
    if (*std::min_element(len.begin(), len.end()) != *std::max_element(len.begin(), len.end())) { s.label("different lengths"); s.nontrivial(); }
    switch (op) {
      case 0: {
        int root = (int)s.below(np);
        auto got = ctx.gather(all[me], root);
        VP_REQUIRE(me == root ? got == all : got.empty(), "gather to rank " << root << ": rank " << me << " received something else than every rank's values");
        break;
      }
      case 1: {
        int root = (int)s.below(np);
        auto got = ctx.scatter(root, me == root ? all : std::vector<std::vector<int>>());
        VP_REQUIRE(got == all[me], "scatter from rank " << root << ": rank " << me << " received " << show(got) << " instead of " << show(all[me]));
        break;
      }
      case 2: {
        std::array<int, 3> a; auto v = ints(seed, 3, me); std::copy(v.begin(), v.end(), a.begin());
        auto got = ctx.allgather_to_vector(a);
        VP_REQUIRE((int)got.size() == np, "allgather length");
        for (int r = 0; r < np; ++r) { auto w = ints(seed, 3, r); VP_REQUIRE(std::equal(w.begin(), w.end(), got[r].begin()), "allgather of arrays: contribution of rank " << r); }
        break;
      }
      case 3: {
        auto got = ctx.allgather_to_vector((int)mix(seed + me));
        for (int r = 0; r < np; ++r) VP_REQUIRE((int)got.size() == np && got[r] == (int)mix(seed + r), "allgather of integers: contribution of rank " << r);
        break;
      }
      case 4: {
        auto got = ctx.allgather_to_vector((size_t)mix(seed + me));
        for (int r = 0; r < np; ++r) VP_REQUIRE((int)got.size() == np && got[r] == (size_t)mix(seed + r), "allgather of sizes: contribution of rank " << r);
        break;
      }
      case 5: {
        if (me == 0) {
          auto got = ctx.gather_recieve((int)mix(seed));
          for (int r = 0; r < np; ++r) VP_REQUIRE((int)got.size() == np && got[r] == (int)mix(seed + r), "gathered integer of rank " << r);
        } else ctx.gather_send((int)mix(seed + me));
        break;
      }
      case 6: {
        std::array<int, 4> a; auto v = ints(seed, 4, me); std::copy(v.begin(), v.end(), a.begin());
        if (me == 0) {
          auto got = ctx.gather_recieve(a);
          for (int r = 0; r < np; ++r) { auto w = ints(seed, 4, r); VP_REQUIRE((int)got.size() == np && std::equal(w.begin(), w.end(), got[r].begin()), "gathered array of rank " << r); }
        } else ctx.gather_send(a);
        break;
      }
      case 7: {
        int n = len[0]; auto v = ints(seed, n, me);
        if (me == 0) {
          auto got = ctx.gather_recieve(v.data(), n);
          std::vector<std::vector<int>> w; for (int r = 0; r < np; ++r) w.push_back(ints(seed, n, r));
          VP_REQUIRE(got == concat(w), "gathered blocks of " << n);
        } else ctx.gather_send(v.data(), n);
        break;
      }
      case 8: {
        int v = me == 0 ? (int)seed : -1;
        ctx.bcast(v);
        std::array<int, 5> a; auto w = ints(seed, 5, me == 0 ? 0 : 9); std::copy(w.begin(), w.end(), a.begin());
        ctx.bcast(a);
        auto want = ints(seed, 5, 0);
        VP_REQUIRE(v == (int)seed && std::equal(want.begin(), want.end(), a.begin()), "broadcast on rank " << me);
        break;
      }
      case 9: case 10: {
        std::vector<std::string> t(np); std::string want;
        for (int r = 0; r < np; ++r) { t[r] = text(seed, len[r], r); }
        std::string st = text(seed, (int)s.below(4), 50), sep = text(seed, (int)s.below(4), 51), en = text(seed, (int)s.below(4), 52);
        bool f = op == 10;
        for (int r = 0; r < np; ++r) want += (f ? (r ? sep : st) : std::string()) + t[r];
        if (f) want += en;
        std::ostringstream os;
        int form = (int)s.below(2);
        std::string got;
        if (form == 0) got = f ? ctx.catenate_gatherv_format(t[me], st, sep, en) : ctx.catenate_gatherv(t[me]);
        else if (f) { ctx.print_formatted(t[me], st, sep, en, os); got = os.str(); }
        else { ctx.print(t[me], os); got = os.str(); }
        VP_REQUIRE(got == (me == 0 ? want : std::string()), "joined text on rank " << me << " is '" << got << "', should be '" << (me == 0 ? want : "") << "'");
        break;
      }
      case 11: {
        std::vector<std::string> t(np); std::string want;
        for (int r = 0; r < np; ++r) { t[r] = text(seed, len[r], r); want += t[r] + "\n"; }
        std::ostringstream os;
        ctx.println(t[me], os);
        ctx.print_if_root(7, os);
        ctx.println_if_root("end", os);
        VP_REQUIRE(os.str() == (me == 0 ? want + "7end\n" : std::string()), "printed text on rank " << me);
        break;
      }
      case 12: {
        std::vector<int> disp(np, 0); for (int r = 1; r < np; ++r) disp[r] = disp[r - 1] + len[r - 1];
        if (me == 0) {
          std::vector<int> got(disp[np - 1] + len[np - 1]);
          ctx.gatherv_recieve(all[0], got, len, disp);
          VP_REQUIRE(got == concat(all), "gathered pieces");
        } else ctx.gatherv_send(all[me]);
        std::vector<int> back(len[me]);
        if (me == 0) ctx.scatterv_send(concat(all), len, disp, back); else ctx.scatterv_recieve(back);
        VP_REQUIRE(back == all[me], "scattered piece of rank " << me);
        break;
      }
      case 13: {  // point to point, ring
        int to = (me + 1) % np, from = (me + np - 1) % np, tag = (int)s.below(1000), form = (int)s.below(3);
        auto send = [&] { if (form == 1) { auto v = all[me]; ctx.send(std::make_pair(v.data(), (int)v.size()), to, tag); } else ctx.send(all[me], to, tag); };
        std::vector<int> got((size_t)s.below(9), -3);
        if (s.flip()) got.reserve((size_t)s.below(64));  // room left from an earlier, longer message
        size_t before = got.size();
        int n = 0;
        auto recv = [&] {
          if (form == 0) n = ctx.recv(got, from, tag);
          else if (form == 1) n = ctx.recv_avoid_resize(got, from, tag);
          else { got.assign(32, -3); n = ctx.recv(got.data(), from, tag, 32); }
        };
        if (me % 2 == 0) { send(); recv(); } else { recv(); send(); }
        VP_REQUIRE(n == len[from], "received " << n << " numbers, " << len[from] << " were sent");
        if (form == 0) VP_REQUIRE((int)got.size() == n, "length of the received vector");
        if (form == 1) VP_REQUIRE(got.size() == std::max(before, (size_t)n), "received vector resized to " << got.size());
        for (int i = 0; i < n; ++i) VP_REQUIRE(got[i] == all[from][i], "received number " << i);
        for (size_t i = n; form == 2 && i < got.size(); ++i) VP_REQUIRE(got[i] == -3, "wrote behind the message");
        break;
      }
      case 14: {  // packed values between ranks
        typedef std::pair<std::vector<std::vector<int>>, double> V;
        auto value = [&](int r) { V v; for (int k = 0; k < len[r] % 4; ++k) v.first.push_back(ints(seed, (int)(mix(seed + 31 * r + k) % 6), r * 10 + k)); v.second = contribution(seed, r, 0, 0, 0); return v; };
        int to = (me + 1) % np, from = (me + np - 1) % np;
        std::vector<int> buf((size_t)s.below(5));
        if (s.flip()) buf.reserve((size_t)s.below(64));
        V got; got.first.assign(2, {1, 2});
        if (me % 2 == 0) { ctx.sendpacked(value(me), to, 5, buf); ctx.recvpacked(got, from, 5, buf); }
        else { ctx.recvpacked(got, from, 5, buf); ctx.sendpacked(value(me), to, 5, buf); }
        VP_REQUIRE(got == value(from), "a packed value sent from rank " << from << " to " << me << " differs");
        break;
      }
      default: {
        int color = (int)(mix(seed + me) % 3), key = (int)(mix(seed + 77 + me) % 100);
        bool plain = s.flip();
        MPI_Comm c = color == 2 ? ctx.split_by_color() : plain ? ctx.split_by_color(color) : ctx.split_by_color(color, key);
        if (color == 2) VP_REQUIRE(c == MPI_COMM_NULL, "a rank without a colour got a communicator");
        else {
          int n = 0, want = 0; MPI_Comm_size(c, &n);
          for (int r = 0; r < np; ++r) want += (int)(mix(seed + r) % 3) == color;
          VP_REQUIRE(n == want, "a colour of " << want << " ranks made a communicator of " << n);
          MPI_Comm_free(&c);
        }
      }
    }
  }
  if (sub) MPI_Comm_free(&own);
  s.label("np=" + std::to_string(s.np));
}

// ---------------------------------------------------------------- C28 dense ids
void c28_pack(Src& s) {
  Layout L = gen_layout(s, s.flip());
  auto ids = my_ids(L, s.rank);
  nimble::mpicontext ctx{MPI_COMM_WORLD};
  auto counts = nimble::GetNumberOfNodesAssignedToEachRank(ids, ctx);
  int most = 0;
  bool empty = false;
  for (int r = 0; r < s.np; ++r) {
    VP_REQUIRE(counts[r] == (int)L.on[r].size(), "nodes of rank " << r << ": " << counts[r]);
    most = std::max(most, counts[r]);
    empty = empty || counts[r] == 0;
  }
  auto got = nimble::PackIDSpace(ids, most + (int)s.below(3), ctx);
  VP_REQUIRE(got.size() == ids.size(), "PackIDSpace returned " << got.size() << " ids for " << ids.size());
  // every rank's answer, on every rank
  int n = (int)L.ids.size();
  std::vector<int> mine(n, -1), lo(n), hi(n);
  for (size_t a = 0; a < got.size(); ++a) mine[L.on[s.rank][a]] = got[a];
  MPI_Allreduce(mine.data(), hi.data(), n, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
  for (int& x : mine) if (x < 0) x = INT32_MAX;
  MPI_Allreduce(mine.data(), lo.data(), n, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
  std::set<int> seen;
  for (int i = 0; i < n; ++i) {
    VP_REQUIRE(lo[i] == hi[i], "id " << L.ids[i] << " became " << lo[i] << " on one rank and " << hi[i] << " on another");
    VP_REQUIRE(lo[i] >= 0 && lo[i] < n, "id " << L.ids[i] << " became " << lo[i] << ", outside 0.." << n - 1);
    VP_REQUIRE(seen.insert(lo[i]).second, "two ids became " << lo[i]);
  }
  int mx = *std::max_element(L.ids.begin(), L.ids.end());
  int m = nimble::GetMaximumNodeId(ids, ctx);
  VP_REQUIRE(m == mx, "largest id is " << m << ", should be " << mx);
  if (empty) s.label("a rank without nodes");
  s.label("np=" + std::to_string(s.np));
  s.nontrivial(n > 2);
}
}  // namespace
int main(int argc, char** argv) {
  Hooks hk;
  hk.init = [] {
    int argc = 1;
    static char n[] = "p_mpi";
    static char* av[] = {n, nullptr};
    char** a = av;
    MPI_Init(&argc, &a);
    Kokkos::initialize(argc, a);
  };
  hk.fini = [] { int f = 0; MPI_Initialized(&f); if (f) { Kokkos::finalize(); MPI_Finalize(); } };
  std::vector<Check> c = {
    {"C18", "reduce-native", c18_native, 24000, 400000, "random node-to-rank layouts, ids and local orders; groups, owners, several reductions of 1-3 components as arrays and through a lookup, sums exact; non-trivial: some node is shared", {2, 3, 4, 5}},
    {"C18", "reduce-communicator", c18_communicator, 16000, 160000, "the same through the application's communicator, native and Tpetra; non-trivial: some node is shared", {1, 2, 3, 4}},
    {"C19", "pack", c19_pack, 1500000, 30000000, "30 nestings of numbers, pairs, arrays, vectors: raw, two in one buffer, word buffers fresh and used; non-trivial: more than 8 bytes", {}},
    {"C19", "collectives", c19_collectives, 60000, 1200000, "sequences of collectives and messages with different and empty lengths, on the world and another communicator; non-trivial: lengths differ between ranks", {2, 3, 4, 5}},
    {"C28", "pack-ids", c28_pack, 32000, 600000, "scattered ids on 1-5 ranks mapped to a dense range; non-trivial: more than two ids", {1, 2, 3, 5}},
  };
  return vp_main(argc, argv, c, hk);
}
