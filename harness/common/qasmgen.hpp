// OpenQASM programs generated together with their meaning; shares no code with the importer
#pragma once
#include "common/gen.hpp"
#include <map>
#include <set>
#include <string>
#include <vector>

namespace vf {
constexpr double TOL = 1e-7;

// ------------------------------------------------------------------------------------------------ expressions
struct Val {
  bool isInt = false;
  long long i = 0;
  double d = 0;
  double num() const { return isInt ? static_cast<double>(i) : d; }
};
struct Expr {
  std::string text;
  Val v;
  int prec = 9; // 1 comparison, 2 sum, 3 term, 4 unary minus, 5 power, 9 primary
};
using Env = std::map<std::string, Val>;

struct Gen {
  Rng& r;
  bool v2 = false;
  Env consts; // global constants
  std::set<std::string> unsignedConsts;

  explicit Gen(Rng& rng) : r(rng) {}

  std::string ws() {
    if (r.chance(0.85)) {
      return "";
    }
    static const std::vector<std::string> w = {" ", "  ", "\n", "\t", " /* c */ ", "/*q[0];*/", " // x q[0];\n", "\r\n", " // pi 3\n", "/* multi\nline * / */"};
    return r.pick(w);
  }
  std::string sp() { return " " + ws(); }

  static bool fine(double x) { return std::isfinite(x) && std::abs(x) <= 1e3; }

  Expr literal(bool wantInt) {
    Expr e;
    char b[64];
    if (wantInt) {
      e.v.isInt = true;
      e.v.i = static_cast<long long>(r.chance(0.8) ? r.below(8) : r.below(300));
      const auto k = v2 ? 0 : r.below(8);
      if (k == 0 || k > 4) {
        std::snprintf(b, sizeof b, "%lld", e.v.i);
      } else if (k == 1) {
        std::snprintf(b, sizeof b, r.chance(0.5) ? "0x%llx" : "0X%llX", static_cast<unsigned long long>(e.v.i));
      } else if (k == 2) {
        std::snprintf(b, sizeof b, "0o%llo", static_cast<unsigned long long>(e.v.i));
      } else if (k == 3) {
        std::string s;
        for (auto x = e.v.i; x > 0; x /= 2) {
          s.insert(s.begin(), static_cast<char>('0' + x % 2));
        }
        std::snprintf(b, sizeof b, "%s%s", r.chance(0.5) ? "0b" : "0B", s.empty() ? "0" : s.c_str());
      } else {
        e.v.i = 100 + static_cast<long long>(r.below(900));
        std::snprintf(b, sizeof b, "%lld_%02lld", e.v.i / 100, e.v.i % 100);
      }
      e.text = b;
      return e;
    }
    const double x = r.uniform(0, 4);
    switch (r.below(6)) {
    case 0:
      std::snprintf(b, sizeof b, ".%03d", static_cast<int>(r.below(1000)));
      break;
    case 1:
      std::snprintf(b, sizeof b, "%d.", static_cast<int>(r.below(6)));
      break;
    case 2:
      std::snprintf(b, sizeof b, "%.3fe%s%d", x * 10, r.chance(0.5) ? "-" : "-0", 1 + static_cast<int>(r.below(2)));
      break;
    case 3:
      std::snprintf(b, sizeof b, "%.2fE+1", x / 10);
      break;
    case 4:
      std::snprintf(b, sizeof b, "%de0", static_cast<int>(r.below(5)));
      break;
    default:
      std::snprintf(b, sizeof b, "%.17g", x);
      break;
    }
    e.text = b;
    e.v.d = std::strtod(b, nullptr);
    return e;
  }
  std::string wrap(const Expr& e, bool paren) {
    return paren ? "(" + ws() + e.text + ws() + ")" : e.text;
  }
  Expr leaf(const Env& env, bool wantInt) {
    if (!wantInt && r.chance(0.3)) {
      static const std::vector<std::pair<std::string, double>> c3 = {{"pi", qc::PI}, {"π", qc::PI}, {"tau", 2 * qc::PI}, {"τ", 2 * qc::PI}, {"euler", 2.718281828459045}, {"ℇ", 2.718281828459045}};
      const auto& c = v2 ? c3[0] : r.pick(c3);
      Expr e;
      e.text = c.first;
      e.v.d = c.second;
      return e;
    }
    std::vector<std::pair<std::string, Val>> names;
    for (const auto& [n, v] : env) {
      if (v.isInt == wantInt) {
        names.emplace_back(n, v);
      }
    }
    if (!names.empty() && r.chance(0.55)) {
      const auto& n = r.pick(names);
      Expr e;
      e.text = n.first;
      e.v = n.second;
      return e;
    }
    return literal(wantInt);
  }
  // the operands of an operator that mixes integers and reals are converted to reals
  Expr expr(const Env& env, int depth, bool wantInt) {
    for (int tries = 0; tries < 8; ++tries) {
      Expr e = attempt(env, depth, wantInt);
      if (fine(e.v.num())) {
        return e;
      }
    }
    return literal(wantInt);
  }
  Expr attempt(const Env& env, int depth, bool wantInt) {
    if (depth == 0 || r.chance(0.2)) {
      return leaf(env, wantInt);
    }
    const auto kind = r.below(10);
    Expr e;
    if (kind < 2) { // unary minus
      const auto a = expr(env, depth - 1, wantInt);
      e.text = "-" + ws() + wrap(a, a.prec < 4 || (a.prec == 4 && r.chance(0.7)) || (a.prec > 4 && r.chance(0.1)));
      e.v = a.v;
      e.v.i = -a.v.i;
      e.v.d = -a.v.d;
      e.prec = 4;
      return e;
    }
    if (kind == 2 && !wantInt) {
      static const std::vector<std::string> fs = {"sin", "cos", "tan", "exp", "ln", "sqrt"};
      const auto& f = r.pick(fs);
      const auto a = expr(env, depth - 1, r.chance(0.2));
      const double x = a.v.num();
      if ((f == "ln" && x < 1e-2) || (f == "sqrt" && x < 0) || (f == "tan" && std::abs(std::cos(x)) < 0.05) || (f == "exp" && x > 5)) {
        return a.v.isInt ? literal(false) : a;
      }
      e.text = f + ws() + "(" + ws() + a.text + ws() + ")";
      e.v.d = f == "sin" ? std::sin(x) : f == "cos" ? std::cos(x) : f == "tan" ? std::tan(x) : f == "exp" ? std::exp(x) : f == "ln" ? std::log(x) : std::sqrt(x);
      return e;
    }
    if (kind == 3) { // power, not chained
      const auto a = expr(env, depth - 1, wantInt);
      Expr b = leaf(env, wantInt || r.chance(0.7));
      const bool ok = wantInt ? (std::abs(a.v.i) <= 5 && b.v.i >= 0 && b.v.i <= 4)
                              : (b.v.num() >= 0 && b.v.num() <= 4 && std::abs(a.v.num()) <= 5 && (a.v.num() > 1e-3 || (b.v.isInt && a.v.num() != 0)));
      if (!ok) {
        return a;
      }
      e.text = wrap(a, a.prec < 9) + ws() + "^" + ws() + b.text;
      e.prec = 5;
      if (wantInt) {
        e.v.isInt = true;
        e.v.i = 1;
        for (long long i = 0; i < b.v.i; ++i) {
          e.v.i *= a.v.i;
        }
      } else {
        e.v.d = std::pow(a.v.num(), b.v.num());
      }
      return e;
    }
    // binary
    bool ai = wantInt;
    bool bi = wantInt;
    if (!wantInt && r.chance(0.3)) {
      (r.chance(0.5) ? ai : bi) = true;
    }
    const auto a = expr(env, depth - 1, ai);
    const auto b = expr(env, depth - 1, bi);
    const auto op = "+-*/"[r.below(4)];
    const int prec = op == '+' || op == '-' ? 2 : 3;
    if (op == '/') {
      if (std::abs(b.v.num()) < 1e-2 || (wantInt && v2)) {
        return a.v.isInt == wantInt ? a : b;
      }
    }
    e.prec = prec;
    // a unary minus may stand on the right of an operator
    const bool pa = a.prec < prec || (a.prec > prec && r.chance(0.08));
    const bool pb = b.prec <= prec || (b.prec == 4 && r.chance(0.5)) || r.chance(0.05);
    e.text = wrap(a, pa) + ws() + op + (op == '/' ? " " : "") + ws();
    const auto rhs = wrap(b, pb);
    e.text += rhs;
    if (wantInt) {
      e.v.isInt = true;
      e.v.i = op == '+' ? a.v.i + b.v.i : op == '-' ? a.v.i - b.v.i : op == '*' ? a.v.i * b.v.i : a.v.i / b.v.i;
    } else {
      const double x = a.v.num();
      const double y = b.v.num();
      e.v.d = op == '+' ? x + y : op == '-' ? x - y : op == '*' ? x * y : x / y;
    }
    return e;
  }
  // an angle: integers and reals alike
  Expr angle(const Env& env, int depth) {
    if (v2 && r.chance(0.2)) {
      // integers divide like reals in OpenQASM 2
      Expr e;
      const auto a = 1 + r.below(9);
      const auto b = 1 + r.below(9);
      e.text = std::to_string(a) + "/" + std::to_string(b);
      e.v.d = static_cast<double>(a) / static_cast<double>(b);
      e.prec = 3;
      return e;
    }
    return expr(env, depth, r.chance(0.15));
  }
};

// ------------------------------------------------------------------------------------------------ gates
struct GateDef {
  std::string name;
  unsigned ctrls = 0, targets = 1, params = 0;
  qc::OpType type = qc::None; // standard gates
  // user-defined gates
  std::function<std::vector<Op>(const std::vector<double>&, const std::vector<unsigned>&)> body;
  bool nativeControl = true; // `ctrl` on the gate is defined unambiguously
};
std::vector<GateDef> standardGates(bool v2) {
  using namespace qc;
  std::vector<GateDef> g = {
      {"id", 0, 1, 0, I, {}, true},     {"x", 0, 1, 0, X, {}, true},       {"y", 0, 1, 0, Y, {}, true},       {"z", 0, 1, 0, Z, {}, true},
      {"h", 0, 1, 0, H, {}, true},      {"s", 0, 1, 0, S, {}, true},       {"sdg", 0, 1, 0, Sdg, {}, true},   {"t", 0, 1, 0, T, {}, true},
      {"tdg", 0, 1, 0, Tdg, {}, true},  {"sx", 0, 1, 0, SX, {}, true},     {"sxdg", 0, 1, 0, SXdg, {}, true}, {"rx", 0, 1, 1, RX, {}, true},
      {"ry", 0, 1, 1, RY, {}, true},    {"rz", 0, 1, 1, RZ, {}, true},     {"u1", 0, 1, 1, P, {}, true},      {"u2", 0, 1, 2, U2, {}, true},
      {"u3", 0, 1, 3, U, {}, true},     {"p", 0, 1, 1, P, {}, true},       {"cx", 1, 1, 0, X, {}, true},      {"cy", 1, 1, 0, Y, {}, true},
      {"cz", 1, 1, 0, Z, {}, true},     {"ch", 1, 1, 0, H, {}, true},      {"crx", 1, 1, 1, RX, {}, true},    {"cry", 1, 1, 1, RY, {}, true},
      {"crz", 1, 1, 1, RZ, {}, true},   {"cp", 1, 1, 1, P, {}, true},      {"ccx", 2, 1, 0, X, {}, true},     {"swap", 0, 2, 0, SWAP, {}, true},
      {"cswap", 1, 2, 0, SWAP, {}, true}, {"rzz", 0, 2, 1, RZZ, {}, true}, {"rxx", 0, 2, 1, RXX, {}, true},   {"u", 0, 1, 3, U, {}, true},
      {"U", 0, 1, 3, U, {}, true},
  };
  auto add = [&](const std::string& n, unsigned c, unsigned t, unsigned p, qc::OpType k) { g.push_back({n, c, t, p, k, {}, true}); };
  if (v2) {
    add("cu1", 1, 1, 1, P);
    add("cu3", 1, 1, 3, U);
    add("CX", 1, 1, 0, X);
    add("c3x", 3, 1, 0, X);
    add("c3sqrtx", 3, 1, 0, SXdg);
    add("csx", 1, 1, 0, SX);
    add("ccz", 2, 1, 0, Z);
  } else {
    add("phase", 0, 1, 1, P);
    add("cphase", 1, 1, 1, P);
    add("CX", 1, 1, 0, X);
    add("iswap", 0, 2, 0, iSWAP);
    add("iswapdg", 0, 2, 0, iSWAPdg);
    add("ryy", 0, 2, 1, RYY);
    add("rzx", 0, 2, 1, RZX);
    add("dcx", 0, 2, 0, DCX);
    add("ecr", 0, 2, 0, ECR);
    add("xx_minus_yy", 0, 2, 2, XXminusYY);
    add("xx_plus_yy", 0, 2, 2, XXplusYY);
    add("gphase", 0, 0, 1, GPhase);
  }
  GateDef cu{"cu", 0, 2, 4, qc::None, {}, true};
  cu.body = [](const std::vector<double>& p, const std::vector<unsigned>& q) {
    Op a;
    a.type = qc::P;
    a.p = {p[3]};
    a.t = {q[0]};
    Op b;
    b.type = qc::U;
    b.p = {p[0], p[1], p[2]};
    b.t = {q[1]};
    b.c = {{q[0], true}};
    return std::vector<Op>{a, b};
  };
  if (!v2) {
    g.push_back(cu);
  }
  return g;
}
Op inverse(Op o) {
  if (o.k == Op::Compound) {
    std::reverse(o.body.begin(), o.body.end());
    for (auto& b : o.body) {
      b = inverse(b);
    }
    return o;
  }
  if (o.k == Op::GPhase) {
    o.p[0] = -o.p[0];
    return o;
  }
  if (o.k == Op::Barrier) {
    return o;
  }
  using namespace qc;
  static const std::map<OpType, OpType> pairs = {{S, Sdg}, {Sdg, S}, {T, Tdg}, {Tdg, T}, {SX, SXdg}, {SXdg, SX}, {iSWAP, iSWAPdg}, {iSWAPdg, iSWAP}};
  if (const auto it = pairs.find(o.type); it != pairs.end()) {
    o.type = it->second;
    return o;
  }
  switch (o.type) {
  case U:
    o.p = {-o.p[0], -o.p[2], -o.p[1]};
    break;
  case U2:
    o.type = U;
    o.p = {-PI / 2, -o.p[1], -o.p[0]};
    break;
  case DCX:
    std::swap(o.t[0], o.t[1]);
    break;
  default:
    if (!o.p.empty()) {
      o.p[0] = -o.p[0];
    }
  }
  return o;
}
void control(Op& o, const std::vector<Ctl>& c) {
  if (o.k == Op::Compound) {
    for (auto& b : o.body) {
      control(b, c);
    }
  } else if (o.k != Op::Barrier) {
    o.c.insert(o.c.begin(), c.begin(), c.end());
  }
}
Op meaning(const GateDef& g, const std::vector<double>& p, const std::vector<unsigned>& q) {
  Op o;
  if (g.body) {
    o.k = Op::Compound;
    o.type = qc::Compound;
    o.body = g.body(p, q);
    return o;
  }
  o.type = g.type;
  o.k = g.type == qc::GPhase ? Op::GPhase : Op::Gate;
  o.p = p;
  for (unsigned i = 0; i < q.size(); ++i) {
    if (i < g.ctrls) {
      o.c.push_back({q[i], true});
    } else {
      o.t.push_back(q[i]);
    }
  }
  return o;
}

struct Reg {
  std::string name;
  unsigned size, start;
  bool scalar = false;
};
struct Program {
  std::string text;
  Circ circ;
  std::vector<Reg> q, c;
  // integer constants; the importer shows them as classical registers, too
  std::map<std::string, unsigned> constants;
  bool dynamic = false;
};

struct ProgGen : Gen {
  Program p;
  std::vector<GateDef> gates;
  std::vector<GateDef> mine;
  std::set<std::string> used;
  unsigned maxQ, maxOps;
  bool allowDynamic;
  int measurements = 0;

  ProgGen(Rng& rng, unsigned mq, unsigned ops, bool dyn) : Gen(rng), maxQ(mq), maxOps(ops), allowDynamic(dyn) {}

  std::string fresh() {
    static const std::vector<std::string> a = {"q", "c", "foo", "bar", "a", "b", "anc", "m", "_x", "Reg", "in1", "out", "g", "cc", "cfoo", "theta", "e1", "i", "o", "N", "x1", "ctl", "du", "t_0", "my_gate", "cg", "eps"};
    for (int i = 0; i < 20; ++i) {
      auto n = r.pick(a);
      if (r.chance(0.4)) {
        n += std::to_string(r.below(20));
      }
      bool clash = !used.insert(n).second;
      if (!clash) {
        return n;
      }
    }
    auto n = "id_" + std::to_string(used.size());
    used.insert(n);
    return n;
  }
  void header() {
    if (r.chance(0.2)) {
      p.text += "// some comment: i think 3 is a number\n";
    }
    if (v2) {
      p.text += "OPENQASM" + sp() + "2.0" + ws() + ";\n";
      if (r.chance(0.8)) {
        p.text += "include" + sp() + "\"qelib1.inc\"" + ws() + ";\n";
      }
    } else if (r.chance(0.9)) {
      static const std::vector<std::string> vs = {"3.0", "3", "3.1"};
      p.text += "OPENQASM" + sp() + r.pick(vs) + ws() + ";\n";
      if (r.chance(0.8)) {
        p.text += "include" + sp() + "\"stdgates.inc\"" + ws() + ";\n";
      }
    }
  }
  std::string sizeText(unsigned s) {
    if (!v2 && r.chance(0.25)) {
      for (const auto& [n, v] : consts) {
        // sizes have to be unsigned
        if (v.isInt && v.i == static_cast<long long>(s) && unsignedConsts.count(n) != 0 && r.chance(0.7)) {
          return n;
        }
      }
      const auto a = r.below(s + 1);
      return std::to_string(a) + ws() + "+" + ws() + std::to_string(s - a);
    }
    return std::to_string(s);
  }
  void declareQ() {
    const auto left = maxQ - p.circ.n;
    if (left == 0) {
      return;
    }
    Reg g{fresh(), static_cast<unsigned>(r.range(1, std::min(left, 3U))), p.circ.n};
    if (v2 || r.chance(0.3)) {
      if (!v2 && r.chance(0.3)) {
        g.size = 1;
        g.scalar = true;
        p.text += "qreg" + sp() + g.name + ws() + ";\n";
      } else {
        p.text += "qreg" + sp() + g.name + ws() + "[" + ws() + sizeText(g.size) + ws() + "]" + ws() + ";\n";
      }
    } else if (r.chance(0.2)) {
      g.size = 1;
      g.scalar = true;
      p.text += "qubit" + sp() + g.name + ws() + ";\n";
    } else {
      p.text += "qubit" + ws() + "[" + ws() + sizeText(g.size) + ws() + "]" + sp() + g.name + ws() + ";\n";
    }
    p.circ.n += g.size;
    p.q.push_back(g);
  }
  void declareC() {
    if (p.circ.nc >= 6) {
      return;
    }
    Reg g{fresh(), static_cast<unsigned>(r.range(1, 3)), static_cast<unsigned>(p.circ.nc)};
    if (v2 || r.chance(0.3)) {
      p.text += "creg" + sp() + g.name + ws() + "[" + sizeText(g.size) + "]" + ws() + ";\n";
    } else if (r.chance(0.2)) {
      g.size = 1;
      g.scalar = true;
      p.text += "bit" + sp() + g.name + ws() + ";\n";
    } else if (allowDynamic && r.chance(0.2) && !p.q.empty()) {
      // declaration and measurement in one
      const auto& s = r.pick(p.q);
      g.size = s.size;
      if (p.circ.nc + g.size > 6) {
        return;
      }
      p.text += "bit[" + sizeText(g.size) + "]" + sp() + g.name + ws() + "=" + ws() + "measure" + sp() + s.name + ws() + ";\n";
      Op o;
      o.k = Op::Measure;
      o.type = qc::Measure;
      for (unsigned i = 0; i < g.size; ++i) {
        o.t.push_back(s.start + i);
        o.bits.push_back(g.start + i);
      }
      p.circ.ops.push_back(o);
      measurements += static_cast<int>(g.size);
      p.dynamic = true;
    } else {
      p.text += "bit[" + sizeText(g.size) + "]" + sp() + g.name + ws() + ";\n";
    }
    p.circ.nc += g.size;
    p.c.push_back(g);
  }
  void declareConst() {
    const auto n = fresh();
    const bool isInt = r.chance(0.5);
    auto e = expr(consts, 2, isInt);
    if (isInt) {
      p.constants[n] = 0;
      static const std::vector<std::string> ts = {"int", "int[32]", "int[64]"};
      static const std::vector<std::string> us = {"uint", "uint[32]", "uint[64]"};
      if (e.v.i < 0) {
        p.text += "const" + sp() + r.pick(ts);
      } else {
        // an unsigned constant has to be written without signs
        const bool plain = e.text.find('-') == std::string::npos && e.v.i < 60000;
        bool onlyLiterals = plain;
        for (const auto& [k, v] : consts) {
          onlyLiterals = onlyLiterals && e.text.find(k) == std::string::npos;
        }
        const bool isUnsigned = onlyLiterals && r.chance(0.6);
        p.text += "const" + sp() + (isUnsigned ? r.pick(us) : r.pick(ts));
        if (isUnsigned) {
          unsignedConsts.insert(n);
        }
      }
    } else {
      p.text += "const" + sp() + (r.chance(0.5) ? "float" : "float[64]");
    }
    p.text += sp() + n + ws() + "=" + ws() + e.text + ws() + ";\n";
    consts[n] = e.v;
  }

  // a call, either on formal qubits (within a gate) or on registers
  struct Operand {
    std::string text;
    std::vector<unsigned> qubits;
  };
  // returns the meaning as a function of the actual parameters and qubits
  struct Call {
    std::string text;
    // parameters are evaluated symbolically by regenerating: only used with constant environments
    std::vector<Op> ops;
  };
  const GateDef* choose(std::size_t nq, unsigned& extra) {
    for (int i = 0; i < 30; ++i) {
      const GateDef* g = !mine.empty() && r.chance(0.35) ? &r.pick(mine) : &r.pick(gates);
      if (g->targets + g->ctrls > nq || (g->type == qc::GPhase && r.chance(0.6))) {
        continue;
      }
      const auto room = nq - g->targets - g->ctrls;
      extra = 0;
      if (!v2 && g->nativeControl && r.chance(0.35)) {
        extra = static_cast<unsigned>(r.below(std::min<std::size_t>(room, 3) + 1));
      }
      return g;
    }
    return nullptr;
  }
  // modifiers: text, and how they act on the gate's meaning
  struct Mods {
    std::string text;
    std::vector<bool> ctrls; // sign of the leading operands
    bool inv = false;
  };
  Mods modifiers(unsigned extra) {
    Mods m;
    if (v2) {
      return m;
    }
    unsigned left = extra;
    while (true) {
      if (r.chance(0.15)) {
        m.text += "inv" + ws() + "@" + ws();
        m.inv = !m.inv;
        continue;
      }
      if (left == 0) {
        return m;
      }
      const auto k = static_cast<unsigned>(r.range(1, left));
      const bool pos = r.chance(0.6);
      m.text += pos ? "ctrl" : "negctrl";
      if (k > 1 || r.chance(0.2)) {
        m.text += ws() + "(" + ws() + (r.chance(0.2) ? sizeText(k) : std::to_string(k)) + ws() + ")";
      }
      m.text += ws() + "@" + ws();
      for (unsigned i = 0; i < k; ++i) {
        m.ctrls.push_back(pos);
      }
      left -= k;
    }
  }
  static Op apply(const GateDef& g, const Mods& m, const std::vector<double>& ps, const std::vector<unsigned>& qs) {
    const auto k = m.ctrls.size();
    Op o = meaning(g, ps, std::vector<unsigned>(qs.begin() + static_cast<long>(k), qs.end()));
    if (m.inv) {
      o = inverse(o);
    }
    std::vector<Ctl> c;
    for (std::size_t i = 0; i < k; ++i) {
      c.push_back({qs[i], m.ctrls[i]});
    }
    control(o, c);
    return o;
  }
  std::string argList(const std::vector<Expr>& es, bool hasParams) {
    if (!hasParams) {
      return r.chance(0.05) && !v2 ? "()" : "";
    }
    std::string s = ws() + "(" + ws();
    for (std::size_t i = 0; i < es.size(); ++i) {
      s += (i > 0 ? "," + ws() : "") + es[i].text + ws();
    }
    return s + ")";
  }

  // the largest intermediate value of a parameter; rounding errors of large angles are not to be compared
  static double& largest() {
    static double v = 0;
    return v;
  }
  static double noted(double x) {
    largest() = std::max(largest(), std::isfinite(x) ? std::abs(x) : 1e300);
    return x;
  }
  // an expression in formal parameters, as text and as a function of the parameters
  struct Formal {
    std::string text;
    std::function<double(const std::vector<double>&)> f;
    int prec = 9;
  };
  Formal formal(const std::vector<std::string>& names, int depth) {
    Formal e;
    if (depth == 0 || names.empty() || r.chance(0.25)) {
      if (!names.empty() && r.chance(0.75)) {
        const auto i = r.below(names.size());
        e.text = names[i];
        e.f = [i](const std::vector<double>& p) { return p[i]; };
        return e;
      }
      // names of parameters hide the constants
      Env env = consts;
      for (const auto& n : names) {
        env.erase(n);
      }
      const auto x = angle(env, 1);
      const double v = x.v.num();
      e.text = x.text;
      e.prec = x.prec;
      e.f = [v](const std::vector<double>&) { return v; };
      return e;
    }
    auto par = [&](const Formal& x, bool need) { return need ? "(" + ws() + x.text + ws() + ")" : x.text; };
    const auto a = formal(names, depth - 1);
    const auto kind = r.below(8);
    if (kind == 0) {
      e.text = "-" + ws() + par(a, a.prec < 5);
      e.prec = 4;
      e.f = [f = a.f](const std::vector<double>& p) { return -f(p); };
      return e;
    }
    if (kind == 1) {
      const bool s = r.chance(0.5);
      e.text = std::string(s ? "sin" : "cos") + "(" + ws() + a.text + ws() + ")";
      e.f = [f = a.f, s](const std::vector<double>& p) { return s ? std::sin(f(p)) : std::cos(f(p)); };
      return e;
    }
    if (kind == 2) {
      e.text = par(a, a.prec < 9) + ws() + "^" + ws() + "2";
      e.prec = 5;
      e.f = [f = a.f](const std::vector<double>& p) { return noted(f(p) * f(p)); };
      return e;
    }
    const char op = "+-*/"[r.below(4)];
    e.prec = op == '+' || op == '-' ? 2 : 3;
    if (op == '/') {
      const auto d = 1 + r.below(7);
      // the dividend has to be a real number also if it is a constant expression
      e.text = "(" + a.text + ")*1.0" + ws() + "/ " + ws() + std::to_string(d);
      e.f = [f = a.f, d](const std::vector<double>& p) { return f(p) / static_cast<double>(d); };
      return e;
    }
    const auto b = formal(names, depth - 1);
    e.text = par(a, a.prec < e.prec) + ws() + op + ws() + par(b, b.prec <= e.prec);
    e.f = [f = a.f, g = b.f, op](const std::vector<double>& p) {
      const double x = f(p);
      const double y = g(p);
      return noted(op == '+' ? x + y : op == '-' ? x - y : x * y);
    };
    return e;
  }

  void declareGate() {
    GateDef g;
    g.name = fresh();
    g.targets = static_cast<unsigned>(r.range(1, 3));
    g.params = static_cast<unsigned>(r.chance(0.5) ? 0 : r.range(1, 3));
    static const std::vector<std::string> pn = {"theta", "phi", "lambda", "a", "b", "x", "p0", "alpha", "q"};
    static const std::vector<std::string> qn = {"a", "b", "c", "d", "q", "t", "q0", "tgt", "r"};
    std::vector<std::string> ps, qs;
    std::set<std::string> local;
    auto take = [&](const std::vector<std::string>& pool) {
      for (int i = 0; i < 20; ++i) {
        const auto& n = r.pick(pool);
        if (local.insert(n).second) {
          return n;
        }
      }
      auto n = "l" + std::to_string(local.size());
      local.insert(n);
      return n;
    };
    for (unsigned i = 0; i < g.params; ++i) {
      ps.push_back(take(pn));
    }
    for (unsigned i = 0; i < g.targets; ++i) {
      qs.push_back(take(qn));
    }
    // constants of the name of a formal are hidden
    Env hidden;
    for (const auto& n : local) {
      if (const auto it = consts.find(n); it != consts.end()) {
        hidden.insert(*it);
        consts.erase(n);
      }
    }
    std::string s = "gate" + sp() + g.name;
    if (g.params > 0) {
      s += ws() + "(" + ws();
      for (std::size_t i = 0; i < ps.size(); ++i) {
        s += (i > 0 ? "," + ws() : "") + ps[i] + ws();
      }
      s += ")" + ws();
    } else if (r.chance(0.1)) {
      s += "()";
    }
    s += " ";
    for (std::size_t i = 0; i < qs.size(); ++i) {
      s += (i > 0 ? "," + ws() : "") + qs[i] + ws();
    }
    s += "{" + ws();
    using F = std::function<Op(const std::vector<double>&, const std::vector<unsigned>&)>;
    std::vector<F> fs;
    const auto k = r.chance(0.1) ? 0 : r.range(1, 4);
    for (std::size_t i = 0; i < k; ++i) {
      if (r.chance(0.06)) {
        s += " barrier " + qs[0] + ";" + ws();
        continue;
      }
      unsigned extra = 0;
      const auto* d = choose(qs.size(), extra);
      if (d == nullptr) {
        continue;
      }
      const auto m = modifiers(extra);
      std::vector<Formal> as;
      for (unsigned j = 0; j < d->params; ++j) {
        as.push_back(formal(ps, static_cast<int>(r.below(3))));
      }
      const auto nq = d->targets + d->ctrls + m.ctrls.size();
      auto idx = r.perm(qs.size());
      idx.resize(nq);
      s += ws() + m.text + d->name;
      if (d->params > 0) {
        s += ws() + "(";
        for (std::size_t j = 0; j < as.size(); ++j) {
          s += (j > 0 ? "," + ws() : "") + as[j].text;
        }
        s += ")";
      }
      s += " ";
      for (std::size_t j = 0; j < idx.size(); ++j) {
        s += (j > 0 ? "," + ws() : "") + qs[idx[j]];
      }
      s += ws() + ";" + ws();
      const GateDef copy = *d;
      fs.push_back([copy, m, as, idx](const std::vector<double>& p, const std::vector<unsigned>& q) {
        std::vector<double> pp;
        for (const auto& a : as) {
          pp.push_back(a.f(p));
        }
        std::vector<unsigned> qq;
        for (const auto j : idx) {
          qq.push_back(q[j]);
        }
        return apply(copy, m, pp, qq);
      });
    }
    s += "}" + ws() + "\n";
    p.text += s;
    g.body = [fs](const std::vector<double>& pp, const std::vector<unsigned>& q) {
      std::vector<Op> ops;
      for (const auto& f : fs) {
        ops.push_back(f(pp, q));
      }
      return ops;
    };
    consts.insert(hidden.begin(), hidden.end());
    mine.push_back(g);
  }

  std::string qubitText(unsigned q, bool exprIndex) {
    for (const auto& g : p.q) {
      if (q >= g.start && q < g.start + g.size) {
        if (g.size == 1 && (g.scalar || r.chance(0.2))) {
          return g.name;
        }
        const auto i = q - g.start;
        std::string t = std::to_string(i);
        if (exprIndex && !v2 && r.chance(0.15)) {
          const auto a = r.below(i + 1);
          t = std::to_string(a) + ws() + "+" + ws() + std::to_string(i - a);
        }
        return g.name + ws() + "[" + ws() + t + ws() + "]";
      }
    }
    return "?";
  }
  // a gate call on the registers; appends to ops
  std::string call(std::vector<Op>& ops, bool inBlock) {
    unsigned extra = 0;
    const auto* d = choose(p.circ.n, extra);
    if (d == nullptr) {
      return "";
    }
    auto m = modifiers(extra);
    std::vector<Expr> es;
    std::vector<double> ps;
    for (unsigned i = 0; i < d->params; ++i) {
      es.push_back(angle(consts, static_cast<int>(r.below(4))));
      ps.push_back(es.back().v.num());
    }
    const auto nq = d->targets + d->ctrls + m.ctrls.size();
    // broadcasting: some operands are registers of one size
    std::vector<std::string> ts(nq);
    std::vector<std::vector<unsigned>> qs(nq);
    unsigned width = 1;
    std::set<unsigned> taken;
    if (nq > 0 && r.chance(inBlock ? 0.1 : 0.25)) {
      std::vector<const Reg*> cand;
      for (const auto& g : p.q) {
        if (g.size > 1) {
          cand.push_back(&g);
        }
      }
      if (!cand.empty()) {
        width = r.pick(cand)->size;
        auto order = r.perm(nq);
        for (std::size_t j = 0; j < nq; ++j) {
          if (j > 0 && r.chance(0.4)) {
            continue;
          }
          for (const auto* g : cand) {
            if (g->size == width && taken.count(g->start) == 0 && r.chance(0.8)) {
              ts[order[j]] = g->name;
              for (unsigned b = 0; b < width; ++b) {
                qs[order[j]].push_back(g->start + b);
                taken.insert(g->start + b);
              }
              break;
            }
          }
        }
        if (taken.empty()) {
          width = 1;
        }
      }
    }
    std::vector<unsigned> rest;
    for (unsigned q = 0; q < p.circ.n; ++q) {
      if (taken.count(q) == 0) {
        rest.push_back(q);
      }
    }
    r.shuffle(rest);
    for (std::size_t j = 0; j < nq; ++j) {
      if (qs[j].empty()) {
        if (rest.empty()) {
          return "";
        }
        qs[j].assign(width, rest.back());
        ts[j] = qubitText(rest.back(), !inBlock);
        rest.pop_back();
      }
    }
    std::string s = m.text + d->name + argList(es, d->params > 0) + (nq > 0 ? sp() : "");
    for (std::size_t j = 0; j < nq; ++j) {
      s += (j > 0 ? "," + ws() : "") + ts[j] + ws();
    }
    s += ";";
    for (unsigned w = 0; w < width; ++w) {
      std::vector<unsigned> q;
      for (std::size_t j = 0; j < nq; ++j) {
        q.push_back(qs[j][w]);
      }
      ops.push_back(apply(*d, m, ps, q));
    }
    return s;
  }
  std::string block(Op& body) {
    body.k = Op::Compound;
    body.type = qc::Compound;
    if (v2 || r.chance(0.4)) {
      for (int i = 0; i < 10; ++i) {
        auto s = call(body.body, true);
        if (!s.empty()) {
          return s;
        }
      }
      return "";
    }
    std::string s = "{" + ws();
    const auto k = r.range(1, 3);
    for (std::size_t i = 0; i < k; ++i) {
      s += call(body.body, true) + ws();
    }
    return body.body.empty() ? "" : s + "}";
  }
  void statement() {
    const auto kind = r.below(100);
    if (!allowDynamic || kind < 62 || p.circ.nc == 0) {
      if (kind < 4) {
        p.text += r.chance(0.3) && !v2 ? "barrier;\n" : "barrier" + sp() + qubitText(static_cast<unsigned>(r.below(p.circ.n)), false) + ws() + ";\n";
        return;
      }
      const auto s = call(p.circ.ops, false);
      p.text += s + (r.chance(0.8) ? "\n" : "");
      return;
    }
    if (kind < 78 && measurements < 5) {
      Op o;
      o.k = Op::Measure;
      o.type = qc::Measure;
      p.dynamic = true;
      const auto& c = r.pick(p.c);
      const Reg* whole = nullptr;
      for (const auto& g : p.q) {
        if (g.size == c.size && r.chance(0.6)) {
          whole = &g;
        }
      }
      std::string a;
      std::string b;
      if (whole != nullptr) {
        for (unsigned i = 0; i < c.size; ++i) {
          o.t.push_back(whole->start + i);
          o.bits.push_back(c.start + i);
        }
        a = whole->name;
        b = c.name;
      } else {
        const auto i = static_cast<unsigned>(r.below(c.size));
        o.t = {static_cast<unsigned>(r.below(p.circ.n))};
        o.bits = {c.start + i};
        a = qubitText(o.t[0], false);
        b = c.scalar ? c.name : c.name + "[" + std::to_string(i) + "]";
      }
      measurements += static_cast<int>(o.t.size());
      if (v2 || r.chance(0.3)) {
        p.text += "measure" + sp() + a + sp() + "->" + sp() + b + ws() + ";\n";
      } else {
        p.text += b + ws() + "=" + ws() + "measure" + sp() + a + ws() + ";\n";
      }
      p.circ.ops.push_back(o);
      return;
    }
    if (kind < 83) {
      Op o;
      o.k = Op::Reset;
      o.type = qc::Reset;
      p.dynamic = true;
      if (r.chance(0.3)) {
        const auto& g = r.pick(p.q);
        for (unsigned i = 0; i < g.size; ++i) {
          o.t.push_back(g.start + i);
        }
        p.text += "reset" + sp() + g.name + ws() + ";\n";
      } else {
        o.t = {static_cast<unsigned>(r.below(p.circ.n))};
        p.text += "reset" + sp() + qubitText(o.t[0], false) + ws() + ";\n";
      }
      p.circ.ops.push_back(o);
      return;
    }
    // conditions
    Op o;
    o.k = Op::If;
    o.type = qc::ClassicControlled;
    p.dynamic = true;
    const auto& c = r.pick(p.c);
    std::string cond;
    if (!v2 && (r.chance(0.4) || c.scalar)) {
      const auto i = static_cast<unsigned>(r.below(c.size));
      o.condBits = {c.start + i};
      o.condIsBit = true;
      const auto b = c.scalar ? c.name : c.name + "[" + std::to_string(i) + "]";
      switch (r.below(5)) {
      case 0:
        cond = b;
        o.expected = 1;
        break;
      case 1:
        cond = "!" + ws() + b;
        o.expected = 0;
        break;
      case 2:
        cond = "~" + ws() + b;
        o.expected = 0;
        break;
      default: {
        const auto v = r.below(2);
        const bool ne = r.chance(0.4);
        cond = r.chance(0.8) ? b + ws() + (ne ? "!=" : "==") + ws() + std::to_string(v) : std::to_string(v) + ws() + (ne ? "!=" : "==") + ws() + b;
        o.expected = ne ? 1 - v : v;
      }
      }
    } else {
      for (unsigned i = 0; i < c.size; ++i) {
        o.condBits.push_back(c.start + i);
      }
      const auto v = r.below((1U << c.size) + 1);
      o.expected = v;
      if (v2) {
        cond = c.name + ws() + "==" + ws() + std::to_string(v);
      } else {
        static const std::vector<std::pair<std::string, qc::ComparisonKind>> cs = {{"==", qc::Eq}, {"!=", qc::Neq}, {"<", qc::Lt}, {"<=", qc::Leq}, {">", qc::Gt}, {">=", qc::Geq}};
        const auto& k = r.pick(cs);
        o.cmp = k.second;
        const auto e = std::to_string(v);
        if (r.chance(0.3)) {
          static const std::map<std::string, std::string> flip = {{"==", "=="}, {"!=", "!="}, {"<", ">"}, {"<=", ">="}, {">", "<"}, {">=", "<="}};
          cond = e + ws() + flip.at(k.first) + ws() + c.name;
        } else {
          cond = c.name + ws() + k.first + ws() + e;
        }
      }
    }
    Op body;
    auto s = block(body);
    if (s.empty()) {
      return;
    }
    std::string text = "if" + ws() + "(" + ws() + cond + ws() + ")" + sp() + s;
    if (v2 && body.body.size() > 1) {
      // a broadcast statement is one statement
    }
    o.body = {body};
    Op other = o;
    bool hasElse = false;
    if (!v2 && r.chance(0.4)) {
      Op eb;
      const auto es = block(eb);
      if (!es.empty()) {
        text += sp() + "else" + sp() + es;
        other.body = {eb};
        if (o.condIsBit) {
          other.expected = 1 - o.expected;
        } else {
          static const std::map<qc::ComparisonKind, qc::ComparisonKind> inv = {{qc::Eq, qc::Neq}, {qc::Neq, qc::Eq}, {qc::Lt, qc::Geq}, {qc::Geq, qc::Lt}, {qc::Gt, qc::Leq}, {qc::Leq, qc::Gt}};
          other.cmp = inv.at(o.cmp);
        }
        hasElse = true;
      }
    }
    p.text += text + "\n";
    p.circ.ops.push_back(o);
    if (hasElse) {
      p.circ.ops.push_back(other);
    }
  }
  void generate() {
    largest() = 0;
    v2 = r.chance(0.4);
    gates = standardGates(v2);
    for (const auto& g : gates) {
      used.insert(g.name);
    }
    header();
    const auto ng = r.below(4);
    for (std::size_t i = 0; i < ng; ++i) {
      if (!v2 && r.chance(0.5)) {
        declareConst();
      }
      declareGate();
    }
    declareQ();
    if (allowDynamic) {
      declareC();
    }
    const auto k = r.range(1, maxOps);
    for (std::size_t i = 0; i < k; ++i) {
      if (r.chance(0.12)) {
        declareQ();
      }
      if (r.chance(0.08)) {
        declareC();
      }
      if (!v2 && r.chance(0.06)) {
        declareConst();
      }
      if (r.chance(0.05)) {
        declareGate();
      }
      statement();
    }
    if (r.chance(0.1)) {
      p.text += "// end";
    }
  }
};
} // namespace vf
