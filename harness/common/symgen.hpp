// Symbolic parameters together with their meaning.
#pragma once
#include "gen.hpp"
#include "ir/operations/SymbolicOperation.hpp"

namespace vf {
struct SymExpr {
  bool symbolic = false;
  std::map<std::string, double> coef; // may contain zero-valued sums: removed before building
  double c = 0;
};
using Assign = std::map<std::string, double>;
inline double eval(const SymExpr& e, const Assign& a) {
  double s = e.c;
  for (const auto& [v, k] : e.coef) {
    s += k * a.at(v);
  }
  return s;
}
inline std::string str(const SymExpr& e) {
  std::ostringstream o;
  o.precision(17);
  for (const auto& [v, k] : e.coef) {
    o << k << "*" << v << "+";
  }
  o << e.c;
  return o.str();
}
inline qc::SymbolOrNumber toSym(const SymExpr& e) {
  if (!e.symbolic) {
    return e.c;
  }
  std::vector<sym::Term<qc::fp>> t;
  for (const auto& [v, k] : e.coef) {
    t.emplace_back(sym::Variable(v), k);
  }
  return qc::Symbolic(t, e.c);
}
inline qc::VariableAssignment toAssign(const Assign& a) {
  qc::VariableAssignment r;
  for (const auto& [v, x] : a) {
    r[sym::Variable(v)] = x;
  }
  return r;
}
inline double niceAngle(Rng& r) {
  return r.chance(0.7) ? static_cast<double>(static_cast<int>(r.below(17)) - 8) * M_PI / 4 : r.uniform(-7, 7);
}
inline const std::vector<std::string>& symVars() {
  static const std::vector<std::string> v = {"x", "y", "theta_1", "a"};
  return v;
}
inline SymExpr genSym(Rng& r, double pSym) {
  SymExpr e;
  e.symbolic = r.chance(pSym);
  if (!e.symbolic) {
    e.c = r.chance(0.75) ? niceAngle(r) : randAngle(r);
    return e;
  }
  const auto k = r.range(1, 3);
  for (std::size_t i = 0; i < k; ++i) {
    static const std::vector<double> cs = {1, -1, 2, 0.5, -0.5, 3, 1, 1};
    e.coef[r.pick(symVars())] = r.pick(cs);
  }
  if (r.chance(0.4)) {
    e.c = niceAngle(r);
  }
  return e;
}
struct SymOp {
  Op op; // parameters unset for gates
  std::vector<SymExpr> e;
  std::vector<SymOp> body;
  bool byMethod = false;
};
inline Op resolve(const SymOp& s, const Assign& a) {
  Op o = s.op;
  o.p.clear();
  for (const auto& e : s.e) {
    o.p.push_back(eval(e, a));
  }
  o.body.clear();
  for (const auto& b : s.body) {
    o.body.push_back(resolve(b, a));
  }
  return o;
}
inline bool hasSym(const SymOp& s) {
  return std::any_of(s.e.begin(), s.e.end(), [](const SymExpr& e) { return e.symbolic; }) ||
         std::any_of(s.body.begin(), s.body.end(), [](const SymOp& b) { return hasSym(b); });
}
inline void varsOf(const SymOp& s, std::set<std::string>& v) {
  for (const auto& e : s.e) {
    if (e.symbolic) {
      for (const auto& [n, k] : e.coef) {
        v.insert(n);
      }
    }
  }
  for (const auto& b : s.body) {
    varsOf(b, v);
  }
}
inline std::string str(const SymOp& s) {
  std::string r;
  if (s.op.k == Op::Compound || s.op.k == Op::If) {
    Op o = s.op;
    r = s.op.k == Op::If ? cat("if(", s.op.condIsBit ? "bit" : "reg", " ", s.op.condBits.at(0), " ",
                               qc::toString(s.op.cmp), " ", s.op.expected, ")")
                         : std::string();
    r += "{";
    for (const auto& b : s.body) {
      r += str(b) + "; ";
    }
    return r + "}";
  }
  r = str(s.op);
  r += "(";
  for (const auto& e : s.e) {
    r += (e.symbolic ? "sym " : "") + str(e) + ", ";
  }
  return r + ")";
}
inline SymOp genSymGate(Rng& r, const GenCfg& g, double pSym) {
  SymOp s;
  static const std::vector<qc::OpType> par = {qc::RX, qc::RY, qc::RZ, qc::P, qc::U2, qc::U, qc::U, qc::U, qc::U2, qc::RXX,
                                              qc::RYY, qc::RZZ, qc::RZX, qc::XXminusYY, qc::XXplusYY};
  GenCfg h = g;
  if (h.gates.empty() && r.chance(0.85)) {
    h.gates = par;
    if (g.n == 1) {
      h.gates.resize(9);
    }
  }
  s.op = genGate(r, h);
  for (std::size_t i = 0; i < s.op.p.size(); ++i) {
    s.e.push_back(genSym(r, pSym));
  }
  s.op.p.clear();
  s.byMethod = r.chance(0.6);
  return s;
}
inline std::unique_ptr<qc::Operation> toOperation(const SymOp& s) {
  switch (s.op.k) {
  case Op::Gate: {
    if (s.e.empty()) {
      return toOperation(s.op);
    }
    std::vector<qc::SymbolOrNumber> p;
    for (const auto& e : s.e) {
      p.push_back(toSym(e));
    }
    return std::make_unique<qc::SymbolicOperation>(toControls(s.op.c), qc::Targets(s.op.t.begin(), s.op.t.end()),
                                                   s.op.type, p);
  }
  case Op::Compound: {
    auto c = std::make_unique<qc::CompoundOperation>();
    for (const auto& b : s.body) {
      c->emplace_back(toOperation(b));
    }
    return c;
  }
  case Op::If:
    if (s.op.condIsBit) {
      return std::make_unique<qc::ClassicControlledOperation>(
          toOperation(s.body.at(0)), static_cast<qc::Bit>(s.op.condBits.at(0)), s.op.expected, s.op.cmp);
    }
    return std::make_unique<qc::ClassicControlledOperation>(
        toOperation(s.body.at(0)), qc::ClassicalRegister(s.op.condBits.at(0), s.op.condBits.size(), "c"), s.op.expected,
        s.op.cmp);
  default:
    return toOperation(s.op);
  }
}
inline void symByMethod(qc::QuantumComputation& q, const SymOp& s) {
  const auto cs = toControls(s.op.c);
  const auto t0 = s.op.t[0];
  const auto t1 = s.op.t.size() > 1 ? s.op.t[1] : 0U;
  std::vector<qc::SymbolOrNumber> p;
  for (const auto& e : s.e) {
    p.push_back(toSym(e));
  }
#define VF_M(T, f, P, ...)                                                                                             \
  case qc::T:                                                                                                          \
    if (cs.empty()) {                                                                                                  \
      q.f(P, __VA_ARGS__);                                                                                             \
    } else if (cs.size() == 1) {                                                                                       \
      q.c##f(P, *cs.begin(), __VA_ARGS__);                                                                             \
    } else {                                                                                                           \
      q.mc##f(P, cs, __VA_ARGS__);                                                                                     \
    }                                                                                                                  \
    break;
#define VF_P2 p[0], p[1]
#define VF_P3 p[0], p[1], p[2]
#define VF_N(T, f, PP, ...)                                                                                            \
  case qc::T:                                                                                                          \
    if (cs.empty()) {                                                                                                  \
      q.f(PP, __VA_ARGS__);                                                                                            \
    } else if (cs.size() == 1) {                                                                                       \
      q.c##f(PP, *cs.begin(), __VA_ARGS__);                                                                            \
    } else {                                                                                                           \
      q.mc##f(PP, cs, __VA_ARGS__);                                                                                    \
    }                                                                                                                  \
    break;
  switch (s.op.type) {
    VF_M(RX, rx, p[0], t0)
    VF_M(RY, ry, p[0], t0)
    VF_M(RZ, rz, p[0], t0)
    VF_M(P, p, p[0], t0)
    VF_N(U2, u2, VF_P2, t0)
    VF_N(U, u, VF_P3, t0)
    VF_M(RXX, rxx, p[0], t0, t1)
    VF_M(RYY, ryy, p[0], t0, t1)
    VF_M(RZZ, rzz, p[0], t0, t1)
    VF_M(RZX, rzx, p[0], t0, t1)
    VF_N(XXminusYY, xx_minus_yy, VF_P2, t0, t1)
    VF_N(XXplusYY, xx_plus_yy, VF_P2, t0, t1)
  default:
    throw std::logic_error("symByMethod");
  }
#undef VF_M
#undef VF_N
}
} // namespace vf
