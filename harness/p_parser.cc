// C01: input deck; C25: material lines; C26: file names
#include "vp.h"
#include "nimble_parser.h"
#include "nimble_material.h"
#include "nimble_material_factory.h"
#include <fstream>
#include <unistd.h>
#include <sys/stat.h>
using namespace vp;

namespace {
struct P : nimble::Parser {
  std::string backend() const { return contact_backend_string_; }
  bool vis_e() const { return visualize_contact_entities_; }
  bool vis_b() const { return visualize_contact_bounding_boxes_; }
  std::map<std::string, std::string> const& mats() const { return material_strings_; }
  std::map<int, nimble::BlockProperties> const& blocks() const { return model_blocks_; }
};
struct Model {
  std::string genesis = "none", exodus = "none", scheme = "explicit", contact, backend, visfile = "none", fields;
  bool two = false, timing = false, ve = false, vb = false;
  double tol = 1.0e-6, t0 = 0, t1 = 0;
  long iters = 200, steps = 0, freq = 1;
  std::map<std::string, std::string> mats;
  std::map<int, std::pair<std::string, std::string>> blocks;
  std::vector<std::string> bcs;
};
std::string squeeze(const std::string& s) {
  std::istringstream is(s);
  std::string t, r;
  while (is >> t) r += (r.empty() ? "" : " ") + t;
  return r;
}
std::string spaces(Src& s, bool tabs = true) {
  std::string r;
  long n = s.chance(1, 2) ? 0 : s.range(1, 4);
  for (long i = 0; i < n; ++i) r += tabs && s.chance(1, 5) ? '\t' : ' ';
  return r;
}
// blanks between the words of a value
std::string gap(Src& s) {
  std::string r;
  for (long n = s.range(1, 3); n--;) r += s.chance(1, 6) ? '\t' : ' ';
  return r;
}
std::string word(Src& s, const char* alphabet, long lo, long hi) {
  std::string r;
  long n = s.range(lo, hi), k = strlen(alphabet);
  for (long i = 0; i < n; ++i) r += alphabet[s.below(k)];
  return r;
}
std::string name(Src& s) { return word(s, "abcdefghijXYZ019_-.", 1, 12); }
std::string anycase(Src& s, std::string w) {
  for (auto& c : w) c = s.flip() ? toupper(c) : tolower(c);
  return w;
}
std::string real(Src& s, double& v) {
  char b[64];
  switch (s.below(5)) {
    case 0: snprintf(b, 64, "%ld", s.range(0, 100)); break;
    case 1: snprintf(b, 64, "%.*f", (int)s.range(1, 9), s.uniform(0, 10)); break;
    case 2: snprintf(b, 64, "%.*e", (int)s.range(1, 16), s.logu(1e-12, 1e12)); break;
    case 3: snprintf(b, 64, "%.3fE-%02ld", s.uniform(1, 9), s.range(0, 12)); break;
    default: snprintf(b, 64, "-%.17g", s.uniform(0, 1000)); break;
  }
  v = strtod(b, 0);
  return b;
}
std::string matprops(Src& s) {
  std::string r = s.pick<std::string>({"neohookean", "elastic"});
  for (const char* k : {"bulk_modulus", "shear_modulus", "density"}) {
    double v;
    r += gap(s) + k + gap(s) + real(s, v);
  }
  return r;
}
std::string bcline(Src& s) {
  std::string r = s.pick<std::string>({"initial_velocity", "prescribed_velocity", "prescribed_displacement"});
  r += " nodelist_" + std::to_string(s.range(1, 20)) + " " + s.pick<std::string>({"x", "y", "z"}) + " ";
  double v;
  if (s.flip()) return r + real(s, v);
  return r + s.pick<std::string>({"\"sin(2*pi*t)\"", "\"(t < 1.0) ? (t) : (1.0)\"", "\"x*y - 3.0e-2*z\"", "\"abs( x )\""});
}
// one deck line: key, value as written, and its effect on the model
void gen_line(Src& s, Model& m, std::string& key, std::string& val) {
  double v;
  switch (s.below(21)) {
    case 0: key = "genesis input file"; val = name(s) + (s.flip() ? ".g" : ""); if (s.chance(1, 6)) val += " x " + name(s); m.genesis = val; break;
    case 1: key = "exodus output file"; val = name(s) + (s.flip() ? ".e" : ""); m.exodus = val; break;
    case 2: case 3: {
      bool on = s.flip();
      val = anycase(s, on ? s.pick<std::string>({"true", "yes", "on"}) : s.pick<std::string>({"false", "no", "off"}));
      if (s.flip()) { key = "use two level mesh decomposition"; m.two = on; } else { key = "write timing data file"; m.timing = on; }
      break;
    }
    case 4: key = "time integration scheme"; val = s.pick<std::string>({"explicit", "quasistatic", "quasistatic", "implicit"}); m.scheme = val; break;
    case 5: key = "nonlinear solver relative tolerance"; val = real(s, m.tol); break;
    case 6: key = "nonlinear solver maximum iterations"; m.iters = s.range(0, 100000); val = std::to_string(m.iters); break;
    case 7: key = "initial time"; val = real(s, m.t0); break;
    case 8: key = "final time"; val = real(s, m.t1); break;
    case 9: key = "number of load steps"; m.steps = s.range(-3, 2000000); val = std::to_string(m.steps); break;
    case 10: key = "output frequency"; m.freq = s.range(0, 100000); val = std::to_string(m.freq); break;
    case 11: key = "contact"; val = "primary_blocks block_" + std::to_string(s.range(1, 9)) + " secondary_blocks block_2 penalty_parameter " + real(s, v); m.contact = val; break;
    case 12: key = "contact backend"; val = name(s); m.backend = val; break;
    case 13: {
      key = "contact visualization";
      bool a = s.flip(), b = s.flip();
      std::string f = name(s);
      auto sp = [&] { return gap(s); };
      val = "visualize_contact_entities" + sp() + (a ? "on" : "off") + sp() + "visualize_bounding_boxes" + sp() + (b ? "on" : "off") + sp() + "file_name" + sp() + f;
      m.ve = a; m.vb = b; m.visfile = f;
      break;
    }
    case 14: case 15: {
      key = "material parameters";
      std::string k = s.flip() ? "material_" + std::to_string(s.range(1, 3)) : name(s), p = matprops(s);
      val = k + gap(s) + p;
      m.mats[k] = p;
      break;
    }
    case 16: case 17: {
      key = "element block";
      int id = s.chance(1, 6) ? s.range(1, 2000000000) : s.range(1, 6);
      std::string bn = s.pick<std::string>({"block_", "my_block_", "b_7_", "_"}) + std::to_string(id);
      std::string mk = m.mats.empty() || s.chance(1, 4) ? name(s) : m.mats.begin()->first;
      val = bn + gap(s) + mk;
      m.blocks[id] = {bn, mk};
      break;
    }
    case 18: case 19: key = "boundary condition"; val = bcline(s); m.bcs.push_back(val); break;
    default: {
      key = "output fields";
      long n = s.chance(1, 10) ? s.range(50, 400) : s.range(1, 6);
      val = "displacement";
      for (long i = 0; i < n; ++i) val += " " + name(s);
      m.fields = val;
    }
  }
}
std::string comment(Src& s) { return "#" + word(s, "abc :#\t \"0.1", 0, s.chance(1, 20) ? 600 : 20); }

void write_deck(Src& s, const std::string& text, std::string& path) {
  path = s.dir + "/deck.in";
  std::ofstream f(path, std::ios::binary | std::ios::trunc);
  f << text;
}
void compare(P& p, const Model& m) {
#define SAME(a, b, what) VP_REQUIRE((a) == (b), what << ": configured [" << (a) << "], the deck says [" << (b) << "]")
  SAME(p.GenesisFileName(), m.genesis, "genesis input file");
  SAME(p.ExodusFileName(), m.exodus, "exodus output file");
  SAME(p.UseTwoLevelMeshDecomposition(), m.two, "two level decomposition");
  SAME(p.WriteTimingDataFile(), m.timing, "write timing data file");
  SAME(p.NonlinearSolverRelativeTolerance(), m.tol, "relative tolerance");
  SAME((long)p.NonlinearSolverMaxIterations(), m.iters, "max iterations");
  SAME(p.InitialTime(), m.t0, "initial time");
  SAME(p.FinalTime(), m.t1, "final time");
  SAME((long)p.NumLoadSteps(), m.steps, "load steps");
  SAME((long)p.OutputFrequency(), m.freq, "output frequency");
  SAME(p.ContactString(), m.contact, "contact");
  SAME(p.HasContact(), !m.contact.empty(), "has contact");
  SAME(p.backend(), m.backend, "contact backend");
  SAME(p.vis_e(), m.ve, "visualize entities");
  SAME(p.vis_b(), m.vb, "visualize boxes");
  SAME(p.ContactVisualization(), (m.ve || m.vb), "contact visualization");
  SAME(p.ContactVisualizationFileName(), m.visfile, "contact visualization file");
  bool threw = false;
  std::string got;
  try { got = p.TimeIntegrationScheme(); } catch (const std::invalid_argument&) { threw = true; }
  bool bad = m.scheme != "explicit" && m.scheme != "quasistatic";
  VP_REQUIRE(threw == bad, "time integration scheme '" << m.scheme << "' " << (threw ? "rejected" : "accepted"));
  if (!bad) SAME(got, m.scheme, "time integration scheme");
  threw = false;
  try { got = p.GetOutputFieldString(); } catch (const std::invalid_argument&) { threw = true; }
  VP_REQUIRE(threw == m.fields.empty(), "output fields error mismatch");
  if (!threw) SAME(got, m.fields, "output fields");
  auto const& b = p.GetBoundaryConditionStrings();
  SAME(b.size(), m.bcs.size(), "number of boundary conditions");
  for (size_t i = 0; i < b.size(); ++i) SAME(b[i], m.bcs[i], "boundary condition " << i);
  SAME(p.mats().size(), m.mats.size(), "number of materials");
  for (auto& kv : m.mats) {
    auto it = p.mats().find(kv.first);
    VP_REQUIRE(it != p.mats().end(), "material '" << kv.first << "' missing");
    SAME(squeeze(it->second), squeeze(kv.second), "material " << kv.first);
  }
  SAME(p.blocks().size(), m.blocks.size(), "number of blocks");
  for (auto& kv : m.blocks) {
    auto it = p.blocks().find(kv.first);
    VP_REQUIRE(it != p.blocks().end(), "block " << kv.first << " missing");
    SAME(it->second.block_name_, kv.second.first, "block name");
    SAME(it->second.block_id_, kv.first, "block id");
    SAME(it->second.material_key_, kv.second.second, "block material");
    if (m.mats.count(kv.second.second)) SAME(squeeze(p.GetModelMaterialParameters(kv.first)), squeeze(m.mats.at(kv.second.second)), "material of block " << kv.first);
  }
  for (int id = -1; id < 8; ++id)
    if (!m.blocks.count(id)) SAME(p.GetModelMaterialParameters(id), std::string("none"), "material of absent block");
  for (auto& kv : m.mats) {
    int want = -1;
    for (auto& bl : m.blocks) if (bl.second.second == kv.first) { want = bl.first; break; }
    SAME(p.GetBlockIdFromMaterial(kv.first), want, "block of material " << kv.first);
  }
#undef SAME
}
std::string format_line(Src& s, const std::string& key, const std::string& val) {
  std::string l = spaces(s) + key + spaces(s) + ":" + spaces(s) + val + spaces(s);
  if (s.chance(1, 5)) l += comment(s);
  if (s.chance(1, 40)) l += std::string(s.range(200, 20000), ' ');
  return l;
}
std::string filler(Src& s) {
  switch (s.below(3)) {
    case 0: return "";
    case 1: return spaces(s) + comment(s);
    default: return std::string(s.range(1, 5), s.flip() ? ' ' : '\t');
  }
}
std::string gen_deck(Src& s, Model& m) {
  std::string eol = s.chance(1, 6) ? "\r\n" : "\n", text;
  long n = s.size(0, 40);
  for (long i = 0; i < n; ++i) {
    while (s.chance(1, 4)) text += filler(s) + eol;
    std::string k, v;
    gen_line(s, m, k, v);
    text += format_line(s, k, v);
    if (i + 1 < n || s.flip()) text += eol;
  }
  s.nontrivial(n >= 3);
  s.label(n >= 3 ? "lines>=3" : "lines<3");
  return text;
}
void deck(Src& s) {
  Model m;
  std::string path, text = gen_deck(s, m);
  s.note() << text;
  write_deck(s, text, path);
  P p;
  p.SetInputFilename(path);
  p.Initialize();
  compare(p, m);
}
void bad_deck(Src& s) {
  Model m;
  std::string path, text = gen_deck(s, m), k, v, extra;
  bool must = true;
  if (!text.empty() && text.back() != '\n') text += "\n";
  switch (s.below(6)) {
    case 0: {
      Model d;
      gen_line(s, d, k, v);
      std::string good = k;
      k[s.below(k.size())] ^= 1 + s.below(3);
      if (k == good || k.find_first_of("#:\r\n\t") != std::string::npos || k.front() == ' ' || k.back() == ' ') throw Discard();
      if (k == "contact dicing" || k == "contact splitting") throw Discard();
      s.label("unknown keyword");
      extra = format_line(s, k, v);
      break;
    }
    case 1: {
      std::string w = s.pick<std::string>({"", "maybe", "1", "0", "tru", "yess", "o n", "offf", "none"});
      s.label("bad yes/no");
      extra = format_line(s, s.pick<std::string>({"use two level mesh decomposition", "write timing data file"}), w);
      break;
    }
    case 2: {
      std::vector<std::string> w = {"visualize_contact_entities", s.flip() ? "on" : "off", "visualize_bounding_boxes", s.flip() ? "on" : "off", "file_name", "f.e"};
      switch (s.below(3)) {
        case 0: w.erase(w.begin() + s.below(6)); break;
        case 1: w.insert(w.begin() + s.below(7), "zz"); break;
        default: w[s.below(5)] += "q"; break;
      }
      std::string t;
      for (auto& x : w) t += x + " ";
      s.label("bad contact visualization");
      extra = format_line(s, "contact visualization", t);
      break;
    }
    case 3: s.label("no colon"); extra = spaces(s) + word(s, "abcdef ", 1, 30) + "x"; break;
    case 4: {
      s.label("missing file");
      s.nontrivial();
      P p;
      p.SetInputFilename(s.dir + "/" + name(s) + ".missing/deck.in");
      bool threw = false;
      try { p.Initialize(); } catch (const std::exception&) { threw = true; }
      VP_REQUIRE(threw, "unreadable deck file accepted");
      return;
    }
    default: {
      s.label("mutated bytes");
      must = false;
      extra = "";
      long n = s.range(1, 8);
      for (long i = 0; i < n && !text.empty(); ++i) {
        size_t at = s.below(text.size());
        switch (s.below(4)) {
          case 0: text[at] = (char)s.below(256); break;
          case 1: text.erase(at, s.range(1, 20)); break;
          case 2: text.insert(at, std::string(s.range(1, 600), (char)s.below(256))); break;
          default: text.insert(at, s.pick<std::string>({":", "#", "\n", "\r", "\t", " ", "::", "\"", "material parameters:", "element block:", "element block: _", "contact visualization:"})); break;
        }
      }
    }
  }
  s.nontrivial();
  if (s.flip()) text = extra + "\n" + text; else text += extra;
  s.note() << text;
  write_deck(s, text, path);
  P p;
  p.SetInputFilename(path);
  bool threw = false;
  try { p.Initialize(); } catch (const std::exception&) { threw = true; }
  VP_REQUIRE(threw || !must, "invalid deck accepted");
}

// ---- C25
struct MF : nimble::MaterialFactory {
  std::shared_ptr<nimble::MaterialParameters> params(const std::string& l) const { return ParseMaterialParametersString(l); }
};
void material_ok(Src& s) {
  std::string kind = s.pick<std::string>({"neohookean", "elastic"});
  std::vector<std::string> keys = {"density", "bulk_modulus", "shear_modulus"};
  std::map<std::string, double> want;
  auto sp = [&] { return s.chance(3, 4) ? std::string(1, ' ') : gap(s); };
  std::string line = (s.chance(1, 4) ? "  " : "") + kind;
  for (int i : s.perm(3)) {
    double v;
    std::string t = real(s, v);
    want[keys[i]] = v;
    line += sp() + keys[i] + sp() + t;
  }
  if (s.chance(1, 4)) line += "   ";
  s.note() << line;
  s.nontrivial();
  MF f;
  f.parse_and_create(line);
  auto m = f.get_material();
  VP_REQUIRE(m, "no material created");
  VP_REQUIRE((dynamic_cast<nimble::NeohookeanMaterial*>(m.get()) != nullptr) == (kind == "neohookean") &&
             (dynamic_cast<nimble::ElasticMaterial*>(m.get()) != nullptr) == (kind == "elastic"), "material of the wrong kind created");
  VP_REQUIRE(m->GetDensity() == want["density"], "density " << m->GetDensity() << ", given " << want["density"]);
  VP_REQUIRE(m->GetBulkModulus() == want["bulk_modulus"], "bulk modulus " << m->GetBulkModulus() << ", given " << want["bulk_modulus"]);
  VP_REQUIRE(m->GetShearModulus() == want["shear_modulus"], "shear modulus " << m->GetShearModulus() << ", given " << want["shear_modulus"]);
  auto map = f.parse_material_params_string(line);
  VP_REQUIRE(map == want, "parameter map differs from the line");
  auto pr = f.params(line);
  VP_REQUIRE(pr->GetParameters() == want && pr->GetMaterialName() == kind && pr->GetNumParameters() == 3 && pr->GetNumStringParameters() == 0, "parsed parameters differ from the line");
  for (auto& kv : want) VP_REQUIRE(pr->IsParameter(kv.first.c_str()) && pr->GetParameterValue(kv.first.c_str()) == kv.second, "parameter " << kv.first);
  // a second line through the same factory replaces the first
  double v;
  std::string t = real(s, v), l2 = "elastic density " + t + " bulk_modulus 7.0 shear_modulus 3.0";
  f.parse_and_create(l2);
  VP_REQUIRE(f.get_material()->GetDensity() == v && f.get_material()->GetBulkModulus() == 7.0, "second material differs from its line");
  VP_REQUIRE(m->GetDensity() == want["density"], "first material changed by the second line");
}
void material_bad(Src& s) {
  std::vector<std::string> tok = {s.pick<std::string>({"neohookean", "elastic"}), "density", "1.0e3", "bulk_modulus", "1.5e11", "shear_modulus", "0.7e11"};
  bool must = true;
  switch (s.below(7)) {
    case 0: { int k = s.below(3); tok.erase(tok.begin() + 1 + 2 * k, tok.begin() + 3 + 2 * k); s.label("missing parameter"); break; }
    case 1: tok[1 + 2 * s.below(3)] += s.pick<std::string>({"x", "_", "1"}); s.label("unknown parameter"); break;
    case 2: tok.insert(tok.begin() + 1 + 2 * s.below(4), {s.pick<std::string>({"youngs_modulus", "Density", "nu", "yield_stress"}), "1.0"}); s.label("extra unknown parameter"); break;
    case 3: tok[0] = s.pick<std::string>({"neo_hookean", "Elastic", "ELASTIC", "plastic", "neohookea", "elasticc"}); s.label("unknown material"); break;
    case 4: tok.resize(s.below(7)); s.label("truncated"); break;
    case 5: tok[2 + 2 * s.below(3)] += s.pick<std::string>({"x", ",5", "e", "*2", ".0", "\t3"}); s.label("not a number"); break;
    default: s.label("mutated"); must = false; break;
  }
  std::string line;
  for (size_t i = 0; i < tok.size(); ++i) line += (i ? " " : "") + tok[i];
  if (!must)
    for (long n = s.range(1, 6); n--;) {
      size_t at = line.empty() ? 0 : s.below(line.size());
      switch (s.below(3)) {
        case 0: if (!line.empty()) line.erase(at, s.range(1, 10)); break;
        case 1: line.insert(at, s.pick<std::string>({"\"", " ", "\"\"", "\t", "  \"", "nan", "1e999", "-"})); break;
        default: if (!line.empty()) line[at] = (char)s.below(256);
      }
    }
  s.note() << line;
  s.nontrivial();
  MF f;
  bool threw = false;
  try { f.parse_and_create(line); } catch (const std::exception&) { threw = true; }
  VP_REQUIRE(threw || !must, "invalid material line accepted: " << line);
}

// ---- C26
std::string want_name(const std::string& base, const std::string& ext, const std::string& label, int rank, int n) {
  if (base == "none") return base;
  std::string r = base;
  if (r.size() > 2 && (r.substr(r.size() - 2) == ".g" || r.substr(r.size() - 2) == ".e")) r.resize(r.size() - 2);
  if (!label.empty()) r += "." + label;
  r += "." + ext;
  if (n > 1) {
    std::string a = std::to_string(n), b = std::to_string(rank);
    r += "." + a + "." + std::string(a.size() - b.size(), '0') + b;
  }
  return r;
}
void file_names(Src& s) {
  std::string base = word(s, "abce.g_-/ eg012", 0, s.chance(1, 8) ? 100 : 14);
  base = "m" + base + s.pick<std::string>({".g", ".e", "", ".exo", ".gen", ".g.e", "/x.g"});
  if (s.chance(1, 30)) base = "none";
  std::string ext = s.pick<std::string>({"g", "e"});
  std::string label = s.chance(1, 3) ? "" : word(s, "abckokstpetra_out", 1, 8);
  int n = s.chance(1, 6) ? (int)s.range(0, 1) : s.chance(1, 3) ? (int)s.range(2, 12) : (int)s.logu(2, 200000);
  int rank = n > 1 ? (int)s.below(n) : 0;
  if (n > 9 && s.chance(1, 3)) rank = std::min(n - 1, (int)std::pow(10, s.range(0, 4)) - (int)s.below(2));
  s.note() << "base [" << base << "] ext " << ext << " label [" << label << "] rank " << rank << "/" << n;
  s.nontrivial(n > 1);
  s.label(n > 1 ? "parallel" : "serial");
  std::string got = nimble::IOFileName(base, ext, label, rank, n), want = want_name(base, ext, label, rank, n);
  VP_REQUIRE(got == want, "name [" << got << "], expected [" << want << "]");
  if (n > 1) {
    int other = (rank + 1 + (int)s.below(n - 1)) % n;
    VP_REQUIRE(other == rank || base == "none" || nimble::IOFileName(base, ext, label, other, n) != got, "ranks " << rank << " and " << other << " share the name " << got);
  }
  if (base != "none") {
    int th = (int)s.range(1, 120), tr = (int)s.below(th);
    char buf[1024];
    memset(buf, 'Z', sizeof buf);
    nimble::IOFileNameThreadSafe(base.c_str(), ext.c_str(), label.c_str(), rank, n, tr, th, buf);
    std::string w = want;
    if (th > 1) {
      std::string a = std::to_string(th), b = std::to_string(tr);
      w += "." + a + "." + std::string(a.size() - b.size(), '0') + b;
    }
    VP_REQUIRE(w == buf, "thread-safe name [" << buf << "], expected [" << w << "]");
  }
}
}  // namespace
int main(int argc, char** argv) {
  return vp_main(argc, argv, {
    {"C01", "deck-model", deck, 120000, 3000000, "random decks of documented keywords with random spacing, comments, order and repeats; every getter compared with a model; non-trivial = 3 or more keyword lines", {}, 30},
    {"C01", "invalid-decks", bad_deck, 80000, 2000000, "decks with one invalid line must be rejected with an exception; byte-mutated decks must not crash or hang (address and undefined-behaviour sanitizers on)", {}, 30},
    {"C25", "valid-lines", material_ok, 250000, 5000000, "material lines with the three parameters in any order and spelling of numbers; all are non-trivial", {}, 30},
    {"C25", "invalid-lines", material_bad, 300000, 5000000, "material lines with a missing, unknown, truncated or mutated part; invalid ones must throw, none may crash", {}, 30},
    {"C26", "names", file_names, 1500000, 30000000, "random base names (inner dots, spaces, directories), labels, ranks; non-trivial = more than one rank", {}, 30},
  });
}
