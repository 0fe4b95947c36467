// C27: the executable itself: exit statuses and messages
#include <unistd.h>
#include "sim.h"
using namespace vp;
using namespace sim;
namespace {
void put_text(const std::string& path, const std::string& t) { std::ofstream f(path, std::ios::binary); f << t; }
std::string get_text(const std::string& path) { std::ifstream f(path, std::ios::binary); return std::string((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); }
std::vector<std::string> lines(const std::string& t) { std::vector<std::string> v; std::istringstream s(t); std::string l; while (std::getline(s, l)) v.push_back(l); return v; }
std::string join(const std::vector<std::string>& v) { std::string r; for (auto& l : v) r += l + "\n"; return r; }
bool starts(const std::string& s, const char* p) { return s.compare(0, strlen(p), p) == 0; }
std::string program() {
  std::string p = getenv("VP_NIMBLE") ? getenv("VP_NIMBLE") : "NimbleSM";
#ifdef VP_SAFE
  p.insert(p.rfind('/') + 1, "s_");
#endif
  return p;
}
void status(Src& s) {
  Opt o;
  o.maxcells = 2; o.maxsteps = 4;
  Model m = gen_model(s, o);
  m.plain = true;
  std::string text = deck(s, m);
  auto L = lines(text);
  auto replace = [&](const char* key, const std::string& v) { bool done = false; for (auto& l : L) if (starts(l, key)) { l = std::string(key) + " " + v; done = true; } if (!done) L.push_back(std::string(key) + " " + v); };
  auto drop = [&](const char* key) { std::vector<std::string> k; for (auto& l : L) if (!starts(l, key)) k.push_back(l); L = k; };
  auto insert = [&](const std::string& l) { L.insert(L.begin() + s.below(L.size() + 1), l); };
  std::string set = m.sets.empty() ? "nodelist_1" : s.pick(m.sets).name;
  int np = s.chance(1, 3) ? 2 : 1;
  if (m.ne() < 2) np = 1;
  std::string mesh = "ok", deckfile = "in.txt", what;
  bool bad = true;
  auto junk = [&] { return s.pick({std::string("abc"), std::string("1.0e"), std::string("--3"), std::string("1,5"), std::string("x1")}); };
  switch (s.below(25)) {
    case 0: case 1: case 2: bad = false; what = "usable"; break;
    case 3: deckfile = "none.txt"; what = "missing deck"; break;
    case 4: insert(s.pick({std::string("initial tim: 0"), std::string("output: all"), std::string("Boundary Condition: none")})); what = "unknown keyword"; break;
    case 5: insert("no colon in this line"); what = "missing colon"; break;
    case 6: mesh = "missing"; what = "missing mesh"; break;
    case 7: mesh = "garbage"; what = "garbage mesh"; break;
    case 8: mesh = "empty"; what = "empty mesh"; break;
    case 9: insert("boundary condition: " + s.pick({std::string("fixed"), std::string("prescribed_force"), std::string("initial_displacement")}) + " " + set + " x 0.0"); what = "unknown condition"; break;
    case 10: insert("boundary condition: prescribed_velocity " + set + " " + s.pick({std::string("w"), std::string("xy"), std::string("1")}) + " 0.0"); what = "unknown component"; break;
    case 11: insert("boundary condition: prescribed_velocity " + set + " y " + s.pick({std::string("\"0.0"), std::string("0.0\""), std::string("\"1\" \"2\"")})); what = "unpaired quotes"; break;
    case 12: insert("boundary condition: prescribed_velocity " + set + " z " + junk()); what = "bad magnitude"; break;
    case 13: insert("boundary condition: initial_velocity " + set + " z " + s.pick({std::string("\"1+\""), std::string("\"foo(x)\""), std::string("\"(x\""), std::string("\"\"")})); what = "bad expression"; break;
    case 14: for (auto& l : L) if (starts(l, "material parameters:")) { size_t k = l.find(l.find("neohookean") != std::string::npos ? "neohookean" : " elastic"); l = l.substr(0, k) + " rubber" + l.substr(l.find(' ', k + 1)); } what = "unknown material model"; break;
    case 15: drop("element block:"); what = "blocks without material"; break;
    case 16: drop("material parameters:"); what = "undefined materials"; break;
    case 17: replace(s.pick({"final time:", "initial time:", "number of load steps:", "output frequency:"}), junk()); what = "bad number"; break;
    case 18: replace("final time:", num(m.t0 - 1)); what = "final time before initial time"; break;
    case 19: drop("output fields:"); what = "no output fields"; break;
    case 20: replace("time integration scheme:", s.pick({std::string("implicit"), std::string("Explicit"), std::string("explicitly")})); what = "unknown scheme"; break;
    case 21: mesh = "number"; what = "node that is not there"; break;
    case 22: mesh = "type"; what = "other elements"; break;
    case 23: mesh = "plane"; what = "plane mesh"; break;
    default: for (auto& l : L) if (starts(l, "material parameters:")) { size_t k = l.find(" bulk_modulus"), e = l.find(' ', l.find(' ', k + 1) + 1); l = l.substr(0, k) + (e == std::string::npos ? "" : l.substr(e)); } what = "missing material parameter"; break;
  }
  s.note() << what << ", " << np << " rank(s); " << describe(m) << "\n" << join(L);
  put_text("in.txt", join(L));
  int hit = np == 2 ? (int)s.below(3) : 0;   // which rank's mesh is unusable (2: both)
  for (int r = 0; r < np; ++r) {
    std::string f = np == 1 ? "m.g" : "m.g.2." + std::to_string(r), g = np == 1 ? "r.out.e" : "r.out.e.2." + std::to_string(r);
    unlink(f.c_str()); unlink(g.c_str());
    if (np == 1) exo_write(to_exo(m), f);
    else {
      // first element on rank 0, last on rank 1, the rest anywhere
      Model l = m;
      std::vector<int> to(m.nn(), -1);
      l.X.clear(); l.el.clear(); l.eb.clear(); l.nid.clear(); l.eid.clear();
      for (int e = 0; e < m.ne(); ++e)
        if ((e == 0 ? 0 : e == m.ne() - 1 ? 1 : e % 2) == r) {
          auto q = m.el[e];
          for (int& n : q) { if (to[n] < 0) { to[n] = (int)l.X.size(); l.X.push_back(m.X[n]); l.nid.push_back(m.nid.empty() ? n + 1 : m.nid[n]); } n = to[n]; }
          l.el.push_back(q); l.eb.push_back(m.eb[e]); l.eid.push_back(m.eid.empty() ? e + 1 : m.eid[e]);
        }
      for (auto& t : l.sets) { std::vector<int> v; for (int n : t.nodes) if (to[n] >= 0) v.push_back(to[n]); t.nodes = v; }
      exo_write(to_exo(l), f);
    }
    if (mesh != "ok" && (np == 1 || hit == 2 || hit == r)) {
      if (mesh == "missing") unlink(f.c_str());
      else if (mesh == "number" || mesh == "type") {
        Exo x;
        exo_req(exo_read(f, x, false), "reading the mesh back");
        std::vector<size_t> full;
        for (size_t b = 0; b < x.blocks.size(); ++b) if (x.blocks[b].n()) full.push_back(b);
        auto& b = x.blocks[s.pick(full)];
        if (mesh == "type") {
          int n = b.n();
          b.nper = s.pick({1, 3, 4, 6, 20, 27});
          b.type = b.nper == 1 ? "SPHERE" : b.nper == 3 ? "TRIANGLE" : b.nper == 4 ? "TETRA" : b.nper == 6 ? "WEDGE" : "HEX" + std::to_string(b.nper);
          b.conn.clear();
          for (int i = 0; i < n * b.nper; ++i) b.conn.push_back((int)s.below(x.nn()));
        } else {
          std::vector<std::vector<int>*> l = {&b.conn};
          for (auto& t : x.nsets) if (t.a.size()) l.push_back(&t.a);
          auto& v = *s.pick(l);
          v[s.below(v.size())] = s.pick({-1, -7, x.nn(), x.nn() + 1, x.nn() + 100000});
        }
        unlink(f.c_str());
        exo_write(x, f);
      } else if (mesh == "plane") {
        unlink(f.c_str());
        int cpu = 8, io = 8, q = ex_create(f.c_str(), EX_CLOBBER, &cpu, &io), conn[] = {1, 2, 3, 4};
        double px[] = {0, 1, 1, 0}, py[] = {0, 0, 1, 1};
        exo_req(q >= 0 && ex_put_init(q, "plane", 2, 4, 1, 1, 0, 0) >= 0 && ex_put_coord(q, px, py, nullptr) >= 0 && ex_put_block(q, EX_ELEM_BLOCK, m.bid[0], "QUAD", 1, 4, 0, 0, 0) >= 0 && ex_put_conn(q, EX_ELEM_BLOCK, m.bid[0], conn, 0, 0) >= 0, "plane mesh");
        ex_close(q);
      }
      else { std::string j; if (mesh == "garbage") for (int k = 0; k < 4000; ++k) j += (char)s.below(256); put_text(f, j); }
    }
  }
  std::vector<std::string> cmd;
  if (np == 2) cmd = {"mpirun", "--oversubscribe", "--bind-to", "none", "-np", "2"};
  cmd.push_back(program());
  bool tp = s.chance(1, 4);
  if (tp) cmd.push_back("--use_tpetra");
  cmd.push_back(deckfile);
  Command c = run_command(cmd, s.dir, 60);
#ifdef VP_SAFE
  if (c.out.find("AddressSanitizer") != std::string::npos || c.out.find("runtime error: ") != std::string::npos || c.out.find("View bounds error") != std::string::npos) { fprintf(stderr, "%s\n%s\n%s\n", what.c_str(), join(L).c_str(), c.out.c_str()); _exit(99); }
#endif
  s.label(what);
  s.label(np == 2 ? "2 ranks" : "1 rank");
  VP_REQUIRE(!c.timed_out, what << ": the run did not end");
  if (bad) {
    VP_REQUIRE(c.status != 0, what << ": the run ended with status 0\n" << c.out.substr(0, 1500));
    bool says = false;   // something other than the banner
    for (auto& l : lines(c.out)) if (!l.empty() && l.compare(0, 2, "--") != 0) says = true;
    VP_REQUIRE(says, what << ": no message");
  } else {
    VP_REQUIRE(c.status == 0, "a usable run ended with status " << c.status << "\n" << c.out.substr(0, 1500));
    int want = 1;
    for (int k = 0; k < m.steps; ++k) want += k % m.freq == 0 || k == m.steps - 1;
    for (int r = 0; r < np; ++r) {
      Exo out;
      std::string g = np == 1 ? "r.out.e" : "r.out.e.2." + std::to_string(r);
      VP_REQUIRE(exo_read(g, out), "no output file " << g);
      VP_REQUIRE((int)out.times.size() == want, out.times.size() << " records, expected " << want);
    }
  }
  s.nontrivial();
}
// the command line: options and input file in any order, help, and what cannot be done
void command_line(Src& s) {
  Opt o;
  o.maxcells = 2; o.maxsteps = 4; o.maxbodies = 1;
  Model m = gen_model(s, o);
  put_text("in.txt", deck(s, m));
  exo_write(to_exo(m), "m.g");
  std::string file = s.pick({std::string("in.txt"), std::string("./in.txt"), s.dir + "/in.txt", std::string("my deck.in")});
  if (file == "my deck.in") put_text(file, get_text("in.txt"));
  std::vector<std::string> a;
  bool tp = s.chance(1, 3);
  if (tp) a.push_back("--use_tpetra");
  const char* extra[] = {"--kokkos-disable-warnings", "--kokkos-num-threads=1", "--not-an-option", "-q", "--use_tpetras"};
  for (int k = (int)s.below(3); k > 0; --k) a.push_back(extra[s.below(5)]);
  auto shuffled = [&](std::vector<std::string> v) { std::vector<std::string> w; for (int i : s.perm((int)v.size())) w.push_back(v[i]); return w; };
  int kind = (int)s.below(10);
  std::string what;
  if (kind < 5) { a.push_back(file); a = shuffled(a); if (s.chance(1, 3)) a.push_back("something else"); what = "usable"; }
  else if (kind < 7) { if (s.flip()) a.push_back(file); a.push_back(s.flip() ? "--help" : "-h"); a = shuffled(a); what = "help"; }
  else if (kind < 8) { what = "no file"; if (s.flip()) { a.push_back(s.flip() ? "none.txt" : "."); a = shuffled(a); what = "missing file"; } }
  else { a.push_back(file); a.push_back(s.flip() ? "--use_vt" : "--use_uq"); a = shuffled(a); what = "option that is not built in"; }
  s.note() << what << ":";
  for (auto& x : a) s.note() << " '" << x << "'";
  unlink("r.out.e");
  Command c;
  Exo plain, out;
  if (what == "usable") {
    c = run_command({program(), "in.txt"}, s.dir, 60);
    VP_REQUIRE(c.status == 0 && exo_read("r.out.e", plain), "a usable run ended with status " << c.status << "\n" << c.out.substr(0, 1500));
    unlink("r.out.e");
  }
  a.insert(a.begin(), program());
  c = run_command(a, s.dir, 60);
  bool wrote = exo_read("r.out.e", out);
  VP_REQUIRE(!c.timed_out, what << ": the run did not end");
  if (what == "usable") {
    VP_REQUIRE(c.status == 0 && wrote, "a usable run ended with status " << c.status << "\n" << c.out.substr(0, 1500));
    VP_REQUIRE((c.out.find("-- Using Tpetra interface") != std::string::npos) == tp, "--use_tpetra given: " << tp << "\n" << c.out.substr(0, 500));
    VP_REQUIRE(out.times == plain.times && out.nvars == plain.nvars && out.evars == plain.evars && out.nval == plain.nval && out.evalv == plain.evalv, "the run differs from the one without options");
  } else if (what == "help") {
    VP_REQUIRE(c.status == 0, "asking for help ended with status " << c.status << "\n" << c.out.substr(0, 1500));
    VP_REQUIRE(c.out.find("INPUT_FILE") != std::string::npos && c.out.find("--use_tpetra") != std::string::npos, "the help names no options\n" << c.out.substr(0, 1500));
    VP_REQUIRE(!wrote, "asking for help ran the deck");
  } else {
    VP_REQUIRE(c.status != 0 && !wrote, what << " ended with status " << c.status << (wrote ? ", and ran" : ""));
    VP_REQUIRE(c.out.size() > 5, what << ": no message");
    if (kind >= 8) VP_REQUIRE(c.out.find("was not built with") != std::string::npos, what << ": the message does not say so\n" << c.out.substr(0, 500));
  }
  s.label(what);
  s.nontrivial();
}
}  // namespace
int main(int argc, char** argv) {
#ifndef VP_SAFE
  // prescribed_traction is accepted, and has no effect
  add_probe("C27", "traction-ignored", "a prescribed_traction condition on an existing side set is accepted without a message and has no effect", [](Src& s) {
    s.start_gen(3);
    Opt o;
    o.bcs = false; o.maxcells = 1; o.maxbodies = 1;
    Model m = gen_model(s, o);
    m.fields = "velocity";
    Exo x = to_exo(m);
    ESet t;
    t.id = 1; t.name = "surface_1"; t.a = {0}; t.b = {1};
    x.ssets.push_back(t);
    exo_write(x, s.dir + "/m.g");
    put_text(s.dir + "/in.txt", deck(s, m, "boundary condition: prescribed_traction surface_1 x 1.0e3"));
    Command c = run_command({program(), "in.txt"}, s.dir, 25);
    if (c.status != 0) return false;
    Exo out;
    if (!exo_read(s.dir + "/r.out.e", out)) return true;
    for (auto& k : out.nval) for (auto& v : k) for (double d : v) if (std::fabs(d) > 1e-6 * (double)m.cmax) return false;
    return true;
  });
#endif
  return vp_main(argc, argv, {
    {"C27", "exit-status", status, 120, 2500, "the executable, alone or on two ranks, on usable decks and on decks, meshes and conditions with one defect; every case counts", {}, 120},
    {"C27", "command-line", command_line, 120, 2500, "the executable with options, unknown extras and the input file in any order against the plain run; help; missing files and options that are not built in; every case counts", {}, 120},
  });
}
