// C02: boundary-condition expressions
#include "vp.h"
#include "nimble_expression_parser.h"
#include <memory>
using namespace vp;
typedef long double LD;

struct Node {
  enum K { NUM, VAR, CONST, NEG, ADD, SUB, MUL, DIV, POW, FUN, COND, MOD } k;
  std::string text;  // NUM literal, VAR/CONST/FUN name
  double num = 0;
  std::vector<std::unique_ptr<Node>> a;      // operands
  std::unique_ptr<struct BNode> cond;
};
struct BNode {
  enum K { LT, LE, GT, GE, EQ, AND, OR, XOR, NOT, TRUE_, FALSE_ } k;
  std::unique_ptr<Node> l, r;
  std::unique_ptr<BNode> p, q;
};
typedef std::unique_ptr<Node> N;
typedef std::unique_ptr<BNode> BN;

static const std::vector<std::string> FUNS = {"sin", "cos", "tan", "erf", "exp", "log", "abs", "asin", "acos", "atan", "sqrt", "cbrt", "erfc", "ceil", "round", "floor", "log10"};

static N number(Src& s) {
  N n(new Node); n->k = Node::NUM;
  char b[64];
  switch (s.below(7)) {
    case 0: snprintf(b, 64, "%ld", s.range(0, 9)); break;
    case 1: snprintf(b, 64, "%ld", s.range(0, 2000)); break;
    case 2: snprintf(b, 64, "%.*f", (int)s.range(1, 6), s.uniform(0, 20)); break;
    case 3: snprintf(b, 64, "%ld.", s.range(0, 40)); break;
    case 4: snprintf(b, 64, "%.*fe%ld", (int)s.range(0, 3), s.uniform(0.5, 9.5), s.range(0, 6)); break;
    case 5: snprintf(b, 64, "%.*fe-%ld", (int)s.range(0, 3), s.uniform(0.5, 9.5), s.range(0, 6)); break;
    default: snprintf(b, 64, "%.*f%c+%0*ld", (int)s.range(0, 3), s.uniform(0.5, 9.5), s.flip() ? 'e' : 'E', (int)s.range(1, 2), s.range(0, 6)); break;
  }
  n->text = b;
  n->num = strtod(b, 0);
  return n;
}
static BN gen_bool(Src& s, int d);
static N gen(Src& s, int d) {
  if (d <= 0 || s.chance(1, 6)) {
    uint64_t c = s.below(8);
    if (c < 3) { N n(new Node); n->k = Node::VAR; n->text = s.pick<std::string>({"x", "y", "z", "t"}); return n; }
    if (c == 3) { N n(new Node); n->k = Node::CONST; n->text = s.pick<std::string>({"pi", "e", "tau"}); return n; }
    return number(s);
  }
  N n(new Node);
  uint64_t c = s.below(24);
  if (c < 4) { n->k = Node::ADD; }
  else if (c < 9) { n->k = Node::SUB; }
  else if (c < 12) { n->k = Node::MUL; }
  else if (c < 14) { n->k = Node::DIV; }
  else if (c < 16) { n->k = Node::POW; }
  else if (c < 19) { n->k = Node::FUN; n->text = s.pick(FUNS); n->a.push_back(gen(s, d - 1)); return n; }
  else if (c < 21) { n->k = Node::NEG; n->a.push_back(gen(s, d - 1)); return n; }
  else if (c < 23) { n->k = Node::COND; n->cond = gen_bool(s, 2); n->a.push_back(gen(s, d - 1)); n->a.push_back(gen(s, d - 1)); return n; }
  else n->k = Node::MOD;
  n->a.push_back(gen(s, d - 1));
  if (n->k == Node::POW && s.chance(2, 3)) {   // mostly small integer powers
    N p(new Node); p->k = Node::NUM; p->text = std::to_string(s.range(0, 5)); p->num = strtod(p->text.c_str(), 0);
    if (s.chance(1, 4)) { N q(new Node); q->k = Node::NEG; q->a.push_back(std::move(p)); p = std::move(q); }
    n->a.push_back(std::move(p));
  } else
    n->a.push_back(gen(s, d - 1));
  return n;
}
static BN gen_bool(Src& s, int d) {
  BN b(new BNode);
  uint64_t c = d <= 0 ? s.below(6) : s.below(11);
  if (c < 6) {
    b->k = (BNode::K)(c < 5 ? c : s.below(5));
    b->l = gen(s, 1); b->r = gen(s, 1);
    // equality of two different computations is a rounding question: compare plain leaves only
    if (b->k == BNode::EQ) { b->l = gen(s, 0); b->r = s.flip() ? gen(s, 0) : number(s); }
    return b;
  }
  switch (c) {
    case 6: b->k = BNode::AND; break;
    case 7: b->k = BNode::OR; break;
    case 8: b->k = BNode::XOR; break;
    case 9: b->k = BNode::NOT; break;
    default: b->k = s.flip() ? BNode::TRUE_ : BNode::FALSE_; return b;
  }
  b->p = gen_bool(s, d - 1);
  if (b->k != BNode::NOT) b->q = gen_bool(s, d - 1);
  return b;
}

// ---- rendering: minimal parentheses under the usual precedences, optional extra ones and spaces
struct Render {
  Src& s;
  std::string sp() { return s.chance(1, 6) ? std::string(s.range(1, 2), s.chance(1, 8) ? '\t' : ' ') : ""; }
  std::string paren(const std::string& t) { return "(" + sp() + t + sp() + ")"; }
  // precedence: cond 0, add 1, mul 2, neg 3, pow 4, atom 5
  static int prec(const Node& n) {
    switch (n.k) {
      case Node::COND: return 0;
      case Node::ADD: case Node::SUB: return 1;
      case Node::MUL: case Node::DIV: return 2;
      case Node::NEG: return 3;
      case Node::POW: return 4;
      default: return 5;
    }
  }
  std::string sub(const Node& n, int min) {
    std::string t = expr(n);
    if (prec(n) < min || s.chance(1, 12)) return paren(t);
    return t;
  }
  std::string expr(const Node& n) {
    switch (n.k) {
      case Node::NUM: case Node::CONST: return n.text;
      case Node::VAR: { if (s.chance(1, 20)) { std::string u = n.text; u[0] = toupper(u[0]); return u; } return n.text; }
      case Node::NEG: return "-" + sp() + sub(*n.a[0], 3);
      case Node::ADD: return sub(*n.a[0], 1) + sp() + "+" + sp() + sub2(*n.a[1], 1);
      case Node::SUB: return sub(*n.a[0], 1) + sp() + "-" + sp() + sub2(*n.a[1], 2);
      case Node::MUL: return sub(*n.a[0], 2) + sp() + "*" + sp() + sub2(*n.a[1], 2);
      case Node::DIV: return sub(*n.a[0], 2) + sp() + "/" + sp() + sub2(*n.a[1], 3);
      case Node::POW: return sub(*n.a[0], 5) + sp() + "^" + sp() + sub2(*n.a[1], 4, true);
      case Node::MOD: return "(" + paren(expr(*n.a[0])) + "%" + paren(expr(*n.a[1])) + ")";
      case Node::FUN: return n.text + paren(expr(*n.a[0]));
      case Node::COND: {
        bool was = beside_xor;
        beside_xor = false;
        std::string c = cond(*n.cond, 0);
        beside_xor = was;
        if (s.flip()) c = paren(c);
        return c + sp() + "?" + sp() + sub(*n.a[0], 0) + sp() + ":" + sp() + sub(*n.a[1], 0);
      }
    }
    return "";
  }
  // right operand: a signed operand may stand bare (x*-y, x-(-y) as x--y) or parenthesised
  std::string sub2(const Node& n, int min, bool pow = false) {
    if (n.k == Node::NEG && (pow || min <= 3) && s.flip()) {
      // bare sign: the operand of the sign must bind at least as tightly as a power
      return "-" + sub(*n.a[0], pow ? 4 : 4);
    }
    if (n.k == Node::NEG) return paren(expr(n));
    return sub(n, min);
  }
  // boolean: or 0, xor 1, and 2, not/cmp 3
  // a ^ next to an exclusive or would leave open which of the two it is, so there powers stand in parentheses
  bool beside_xor = false;
  static bool power(const std::string& t) {
    int d = 0;
    for (char c : t) { if (c == '(') ++d; else if (c == ')') --d; else if (c == '^' && !d) return true; }
    return false;
  }
  std::string cmp_operand(const Node& n) {
    std::string t = expr(n);
    return prec(n) == 0 || (prec(n) < 5 && s.flip()) || (beside_xor && power(t)) ? paren(t) : t;
  }
  std::string cond(const BNode& b, int min) {
    if (b.k == BNode::TRUE_) return "true";
    if (b.k == BNode::FALSE_) return "false";
    int p = b.k == BNode::OR ? 0 : b.k == BNode::XOR ? 1 : b.k == BNode::AND ? 2 : 3;
    bool was = beside_xor, par = b.k == BNode::NOT || p < min || s.chance(1, 8);
    if (par) beside_xor = false;
    if (b.k == BNode::XOR) beside_xor = true;
    std::string t;
    switch (b.k) {
      case BNode::OR: t = cond(*b.p, 0) + sp() + "|" + sp() + cond(*b.q, 1); break;
      case BNode::XOR: t = cond(*b.p, 1) + sp() + "^" + sp() + cond(*b.q, 2); break;
      case BNode::AND: t = cond(*b.p, 2) + sp() + "&" + sp() + cond(*b.q, 3); break;
      case BNode::NOT: t = cond(*b.p, 0); break;
      default: {
        static const char* ops[] = {"<", "<=", ">", ">=", "=="};
        t = cmp_operand(*b.l) + sp() + ops[b.k] + sp();
        t += cmp_operand(*b.r);
      }
    }
    beside_xor = was;
    return b.k == BNode::NOT ? "!" + paren(t) : par ? paren(t) : t;
  }
};

// ---- reference evaluation: value with a first-order rounding-error bound
struct V { LD v, e; };
static const LD U = 2.3e-16L;
static V mk(LD v, LD e) { return {v, e + 4 * U * fabsl(v)}; }
static V ev(const Node& n, const double* p);
static bool evb(const BNode& b, const double* p) {
  switch (b.k) {
    case BNode::TRUE_: return true;
    case BNode::FALSE_: return false;
    case BNode::AND: { bool a = evb(*b.p, p), c = evb(*b.q, p); return a && c; }
    case BNode::OR: { bool a = evb(*b.p, p), c = evb(*b.q, p); return a || c; }
    case BNode::XOR: { bool a = evb(*b.p, p), c = evb(*b.q, p); return a != c; }
    case BNode::NOT: return !evb(*b.p, p);
    default: break;
  }
  V l = ev(*b.l, p), r = ev(*b.r, p);
  bool exact = b.l->a.empty() && b.r->a.empty() && !b.l->cond && !b.r->cond;
  if (!exact && fabsl(l.v - r.v) <= 8 * (l.e + r.e)) throw Discard();
  if (std::isnan((double)l.v) || std::isnan((double)r.v)) throw Discard();
  double a = (double)l.v, c = (double)r.v;
  switch (b.k) {
    case BNode::LT: return a < c;
    case BNode::LE: return a <= c;
    case BNode::GT: return a > c;
    case BNode::GE: return a >= c;
    default: return a == c;
  }
}
static V ev(const Node& n, const double* p) {
  switch (n.k) {
    case Node::NUM: return {n.num, 0};
    case Node::VAR: return {p[n.text == "x" ? 0 : n.text == "y" ? 1 : n.text == "z" ? 2 : 3], 0};
    case Node::CONST: return {n.text == "pi" ? M_PI : n.text == "e" ? M_E : 2 * M_PI, 0};
    default: break;
  }
  if (n.k == Node::COND) return evb(*n.cond, p) ? ev(*n.a[0], p) : ev(*n.a[1], p);
  V a = ev(*n.a[0], p), b = n.a.size() > 1 ? ev(*n.a[1], p) : V{0, 0};
  if (fabsl(a.v) > 1e150L || fabsl(b.v) > 1e150L || std::isnan((double)a.v) || std::isnan((double)b.v)) throw Discard();
  switch (n.k) {
    case Node::NEG: return {-a.v, a.e};
    case Node::ADD: return {a.v + b.v, a.e + b.e + 4 * U * (fabsl(a.v) + fabsl(b.v))};
    case Node::SUB: return {a.v - b.v, a.e + b.e + 4 * U * (fabsl(a.v) + fabsl(b.v))};
    case Node::MUL: return mk(a.v * b.v, fabsl(a.v) * b.e + fabsl(b.v) * a.e + 1e-290L);
    case Node::DIV: {
      if (fabsl(b.v) <= 1e3 * b.e || fabsl(b.v) < 1e-100L) throw Discard();
      return mk(a.v / b.v, (a.e + fabsl(a.v / b.v) * b.e) / fabsl(b.v) * 2 + 1e-290L);
    }
    case Node::POW: {
      bool int_exp = n.a[1]->k == Node::NUM || (n.a[1]->k == Node::NEG && n.a[1]->a[0]->k == Node::NUM);
      if (b.v != floorl(b.v) || !int_exp) {
        if (b.v == floorl(b.v) && b.e == 0) {}
        else if (a.v <= 1e3 * a.e) throw Discard();       // non-integer power of a non-positive base
      }
      if (fabsl(a.v) <= 1e3 * a.e && (a.e > 0 || b.v < 0)) throw Discard();
      if (a.v == 0) { if (b.v < 0 || b.e > 0) throw Discard(); return {powl(a.v, b.v), 0}; }
      LD v = powl(a.v, b.v);
      if (!std::isfinite((double)v) || fabsl(v) > 1e150L) throw Discard();
      LD e = fabsl(v) * (fabsl(b.v) * a.e / fabsl(a.v) + fabsl(logl(fabsl(a.v))) * b.e) * 2 + fabsl(v) * 40 * U + 1e-290L;
      return mk(v, e);
    }
    case Node::MOD: {
      if (fabsl(b.v) < 1e-6L || a.e > 0 || b.e > 0) throw Discard();
      return mk(fmodl(a.v, b.v), 0);
    }
    case Node::FUN: {
      const std::string& f = n.text;
      LD x = a.v, d = 0, v = 0;
      auto need = [](bool ok) { if (!ok) throw Discard(); };
      if (f == "sin") { need(fabsl(x) < 1e6); v = sinl(x); d = 1; }
      else if (f == "cos") { need(fabsl(x) < 1e6); v = cosl(x); d = 1; }
      else if (f == "tan") { need(fabsl(x) < 1e6); v = tanl(x); d = 1 + v * v; need(fabsl(v) < 1e4); }
      else if (f == "erf") { v = erfl(x); d = 2; }
      else if (f == "exp") { need(x < 300); v = expl(x); d = v; }
      else if (f == "log") { need(x > 1e3 * a.e && x > 1e-200L); v = logl(x); d = 1 / x; }
      else if (f == "abs") { v = fabsl(x); d = 1; }
      else if (f == "asin") { need(fabsl(x) < 0.999); v = asinl(x); d = 25; }
      else if (f == "acos") { need(fabsl(x) < 0.999); v = acosl(x); d = 25; }
      else if (f == "atan") { v = atanl(x); d = 1; }
      else if (f == "sqrt") { need(x > 1e3 * a.e || (x == 0 && a.e == 0)); v = sqrtl(x); d = x > 0 ? 1 / v : 0; }
      else if (f == "cbrt") { need(fabsl(x) > 1e3 * a.e); v = cbrtl(x); d = x != 0 ? fabsl(v / x) : 0; }
      else if (f == "erfc") { v = erfcl(x); d = 2; need(x < 20); }
      else if (f == "ceil" || f == "floor" || f == "round") {
        LD shift = f == "round" ? 0.5L : 0;
        LD nearest = roundl(x + shift);
        need(fabsl(x) < 1e15L);
        if (a.e > 0) need(fabsl(x + shift - nearest) > 8 * a.e);
        double xd = (double)x;
        v = f == "ceil" ? std::ceil(xd) : f == "floor" ? std::floor(xd) : std::round(xd);
        return {v, 0};
      }
      else if (f == "log10") { need(x > 1e3 * a.e && x > 1e-200L); v = log10l(x); d = 1 / x; }
      // near-zero results of functions with large relative conditioning are covered by the absolute bound
      return mk(v, 2 * fabsl(d) * a.e + 1e-300L);
    }
    default: throw Discard();
  }
}
static int depth_of(const Node& n) { int d = 0; for (auto& c : n.a) d = std::max(d, depth_of(*c)); return d + 1; }
static int ops_of(const Node& n) { int d = n.a.empty() ? 0 : 1; for (auto& c : n.a) d += ops_of(*c); return d; }
static void classify(Src& s, const Node& n) {
  static const char* nm[] = {"number", "variable", "constant", "negation", "add", "subtract", "multiply", "divide", "power", "function", "conditional", "modulo"};
  s.label(nm[n.k]);
  for (auto& c : n.a) classify(s, *c);
}

static void draw_point(Src& s, double* p) {
  for (int i = 0; i < 4; ++i) p[i] = s.chance(1, 3) ? (double)s.range(-3, 3) : s.sym(i == 3 ? 2.0 : 10.0);
}

static void c_value(Src& s) {
  N n = gen(s, (int)s.size(1, 5));
  Render r{s};
  std::string text = r.expr(*n);
  if (s.chance(1, 10)) text = r.paren(text);
  if (s.chance(1, 10)) text = " " + text + " ";
  if (text.size() > 400) throw Discard();
  s.note() << "expression: " << text;
  std::unique_ptr<ExpressionParsing::BoundaryConditionFunctor> f;
  try { f.reset(new ExpressionParsing::BoundaryConditionFunctor(text)); }
  catch (const std::exception& e) { VP_FAIL("well-formed expression rejected: \"" << text << "\": " << e.what()); }
  // histories: several evaluations of the same functor, of a copy and of a re-assigned functor
  std::unique_ptr<ExpressionParsing::BoundaryConditionFunctor> copy;
  int evals = 0, usable = 0;
  double pts[4][4];
  for (int k = 0; k < 3; ++k) draw_point(s, pts[k]);
  memcpy(pts[3], pts[0], sizeof pts[0]);   // the first point again, after others
  for (int k = 0; k < 4; ++k) {
    double* p = pts[k];
    V ref;
    bool ok = true;
    try { ref = ev(*n, p); } catch (Discard&) { ok = false; }
    double got = k == 1 ? (*f)(p[0], p[1], p[2], p[3]) : f->eval(p[0], p[1], p[2], p[3]);
    ++evals;
    if (!ok || fabsl(ref.v) > 1e150L) continue;
    ++usable;
    LD tol = 16 * ref.e + 1e-12L * 1e-200L;
    LD err = fabsl((LD)got - ref.v);
    if (!(err <= tol)) VP_FAIL("\"" << text << "\" at x=" << p[0] << " y=" << p[1] << " z=" << p[2] << " t=" << p[3] << ": got " << got << ", expected " << (double)ref.v << " (error bound " << (double)tol << ")");
    if (k == 0) {
      copy.reset(new ExpressionParsing::BoundaryConditionFunctor(*f));
      double again = copy->eval(p[0], p[1], p[2], p[3]);
      VP_REQUIRE(again == got, "a copied expression evaluates differently: " << text);
    }
    if (k == 2) {
      ExpressionParsing::BoundaryConditionFunctor g("x+1");
      g = *f;
      double again = g.eval(p[0], p[1], p[2], p[3]);
      VP_REQUIRE(again == got, "a re-assigned expression evaluates differently: " << text);
      if (s.flip()) { ExpressionParsing::BoundaryConditionFunctor h("y"); VP_REQUIRE(h.eval(1, 2, 3, 4) == 2, "y"); }
      double c2 = 0;
      if (copy) { c2 = copy->eval(p[0], p[1], p[2], p[3]); VP_REQUIRE(c2 == got, "copy shares no variables with the original: " << text); }
    }
  }
  if (!usable) throw Discard();
  classify(s, *n);
  s.nontrivial(ops_of(*n) >= 2);
  s.note() << "  (" << usable << " points compared)";
}

// malformed text: any exception or value is fine, memory errors and hangs are not
static void c_garbage(Src& s) {
  std::string t;
  static const std::string alpha = "xyzte0123456789.+-*/^%()?:<>=!&| ~piantsqrlo\t\"#,";
  if (s.chance(1, 3)) {
    int n = (int)s.range(0, 24);
    for (int i = 0; i < n; ++i) t += alpha[s.below(alpha.size())];
    s.label("random text");
  } else {
    N n = gen(s, (int)s.range(1, 4));
    Render r{s};
    t = r.expr(*n);
    int m = (int)s.range(1, 3);
    for (int i = 0; i < m && !t.empty(); ++i) {
      size_t at = s.below(t.size() + 1);
      switch (s.below(5)) {
        case 0: t.insert(at, 1, alpha[s.below(alpha.size())]); break;
        case 1: if (at < t.size()) t.erase(at, 1 + s.below(3)); break;
        case 2: if (at < t.size()) t[at] = alpha[s.below(alpha.size())]; break;
        case 3: t = t.substr(0, at); break;
        case 4: t = t.substr(at); break;
      }
    }
    s.label("mutated expression");
  }
  if (t.size() > 200) throw Discard();
  s.note() << "text: [" << t << "]";
  // exactly-sized heap storage, so that a read past either end is visible to the sanitizer
  try {
    ExpressionParsing::BoundaryConditionFunctor f(t);
    s.label("accepted");
    if (!t.empty()) { double v = f.eval(1.5, -2, 0.25, 3); (void)v; double w = f.eval(1.5, -2, 0.25, 3); VP_REQUIRE(v == w || (v != v && w != w), "evaluation is not repeatable: " << t); }
  } catch (const std::invalid_argument&) { s.label("rejected"); }
  catch (const std::out_of_range&) { s.label("rejected"); }
  s.nontrivial(t.size() >= 3);
}

int main(int argc, char** argv) {
  return vp_main(argc, argv, {
    {"C02", "value", c_value, 400000, 6000000, "random expression tree over the documented grammar rendered with minimal or redundant parentheses, spaces and case, evaluated at 4 points (one repeated), by a copy and by a re-assigned functor; non-trivial: at least two operators and at least one point where the reference is well-conditioned"},
    {"C02", "malformed", c_garbage, 200000, 4000000, "random text and mutated expressions under AddressSanitizer/UBSan; non-trivial: three characters or more"},
  });
}
