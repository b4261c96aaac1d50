// Random circuits and their construction through the public interface.
#pragma once
#include "ref.hpp"

namespace vf {
struct GateInfo {
  qc::OpType t;
  int targets;
  int params;
};
inline const std::vector<GateInfo>& allGates() {
  static const std::vector<GateInfo> g = {
      {qc::I, 1, 0},       {qc::X, 1, 0},      {qc::Y, 1, 0},         {qc::Z, 1, 0},        {qc::H, 1, 0},
      {qc::S, 1, 0},       {qc::Sdg, 1, 0},    {qc::T, 1, 0},         {qc::Tdg, 1, 0},      {qc::V, 1, 0},
      {qc::Vdg, 1, 0},     {qc::SX, 1, 0},     {qc::SXdg, 1, 0},      {qc::RX, 1, 1},       {qc::RY, 1, 1},
      {qc::RZ, 1, 1},      {qc::P, 1, 1},      {qc::U2, 1, 2},        {qc::U, 1, 3},        {qc::SWAP, 2, 0},
      {qc::iSWAP, 2, 0},   {qc::iSWAPdg, 2, 0}, {qc::Peres, 2, 0},    {qc::Peresdg, 2, 0},  {qc::DCX, 2, 0},
      {qc::ECR, 2, 0},     {qc::RXX, 2, 1},    {qc::RYY, 2, 1},       {qc::RZZ, 2, 1},      {qc::RZX, 2, 1},
      {qc::XXminusYY, 2, 2}, {qc::XXplusYY, 2, 2}};
  return g;
}
inline const GateInfo& gateInfo(qc::OpType t) {
  for (const auto& g : allGates()) {
    if (g.t == t) {
      return g;
    }
  }
  throw std::logic_error("gateInfo");
}
inline double randAngle(Rng& r) {
  switch (r.below(8)) {
  case 0:
    return 0;
  case 1:
    return static_cast<double>(static_cast<int>(r.below(17)) - 8) * M_PI / 4;
  case 2:
    return static_cast<double>(static_cast<int>(r.below(33)) - 16) * M_PI / 8;
  case 3:
    return M_PI / static_cast<double>(r.range(1, 9)) * (r.chance(0.5) ? 1 : -1);
  case 4:
    return r.uniform(-10, 10);
  default:
    return r.uniform(-2 * M_PI, 2 * M_PI);
  }
}
struct GenCfg {
  unsigned n = 3;
  std::size_t nc = 0;
  std::size_t nops = 10;
  unsigned maxCtl = 3;
  double ctlProb = 0.5;
  bool neg = true;
  double compound = 0.05;
  double gphase = 0.03;
  double barrier = 0.03;
  double measure = 0;
  double reset = 0;
  double cond = 0;
  std::vector<std::pair<std::size_t, std::size_t>> cregs; // (start,size)
  std::vector<qc::OpType> gates;                          // empty = all
  bool condReg = true;
  bool multiMeasure = true;
};
inline std::vector<unsigned> pickQubits(Rng& r, unsigned n, std::size_t k) {
  const auto p = r.perm(n);
  std::vector<unsigned> q;
  for (std::size_t i = 0; i < k; ++i) {
    q.push_back(static_cast<unsigned>(p[i]));
  }
  return q;
}
inline Op genGate(Rng& r, const GenCfg& g) {
  while (true) {
    GateInfo gi = g.gates.empty() ? r.pick(allGates()) : gateInfo(r.pick(g.gates));
    if (static_cast<unsigned>(gi.targets) > g.n) {
      continue;
    }
    Op o;
    o.k = Op::Gate;
    o.type = gi.t;
    std::size_t nctl = 0;
    const std::size_t maxc = std::min<std::size_t>(g.maxCtl, g.n - static_cast<unsigned>(gi.targets));
    if (maxc > 0 && r.chance(g.ctlProb)) {
      nctl = r.range(1, maxc);
    }
    const auto q = pickQubits(r, g.n, nctl + static_cast<std::size_t>(gi.targets));
    for (std::size_t i = 0; i < nctl; ++i) {
      o.c.push_back({q[i], !(g.neg && r.chance(0.35))});
    }
    o.t.assign(q.begin() + static_cast<long>(nctl), q.end());
    std::sort(o.c.begin(), o.c.end(), [](const Ctl& a, const Ctl& b) { return a.q < b.q; });
    for (int i = 0; i < gi.params; ++i) {
      o.p.push_back(randAngle(r));
    }
    return o;
  }
}
inline Op genOp(Rng& r, const GenCfg& g, bool nested = false) {
  double x = r.unit();
  auto take = [&x](double p) {
    if (x < p) {
      return true;
    }
    x -= p;
    return false;
  };
  Op o;
  if (!nested && take(g.compound)) {
    o.k = Op::Compound;
    o.type = qc::Compound;
    const auto k = r.range(1, 4);
    GenCfg h = g;
    h.compound = r.chance(0.2) ? 0.3 : 0;
    h.measure = h.reset = h.cond = 0;
    for (std::size_t i = 0; i < k; ++i) {
      o.body.push_back(genOp(r, h, h.compound == 0));
    }
    return o;
  }
  if (take(g.gphase)) {
    o.k = Op::GPhase;
    o.type = qc::GPhase;
    o.p = {randAngle(r)};
    return o;
  }
  if (take(g.barrier)) {
    o.k = Op::Barrier;
    o.type = qc::Barrier;
    o.t = pickQubits(r, g.n, r.range(1, g.n));
    return o;
  }
  if (g.nc > 0 && take(g.measure)) {
    o.k = Op::Measure;
    o.type = qc::Measure;
    const auto k = g.multiMeasure && r.chance(0.3) ? r.range(1, std::min<std::size_t>(g.n, g.nc)) : 1;
    o.t = pickQubits(r, g.n, k);
    auto b = r.perm(g.nc);
    b.resize(k);
    o.bits = b;
    return o;
  }
  if (take(g.reset)) {
    o.k = Op::Reset;
    o.type = qc::Reset;
    o.t = pickQubits(r, g.n, r.chance(0.3) ? r.range(1, g.n) : 1);
    return o;
  }
  if (g.nc > 0 && take(g.cond)) {
    o.k = Op::If;
    o.type = qc::ClassicControlled;
    if (g.condReg && !g.cregs.empty() && r.chance(0.5)) {
      const auto& [s, n] = r.pick(g.cregs);
      for (std::size_t i = 0; i < n; ++i) {
        o.condBits.push_back(s + i);
      }
      o.expected = r.below((std::uint64_t{1} << n) + (r.chance(0.1) ? 1 : 0));
      o.cmp = static_cast<qc::ComparisonKind>(r.below(6));
    } else {
      o.condIsBit = true;
      o.condBits.push_back(r.below(g.nc));
      o.expected = r.below(2);
      o.cmp = r.chance(0.5) ? qc::Eq : qc::Neq;
    }
    o.body.push_back(genGate(r, g));
    return o;
  }
  return genGate(r, g);
}
inline Circ genCirc(Rng& r, const GenCfg& g) {
  Circ c;
  c.n = g.n;
  c.nc = g.nc;
  for (std::size_t i = 0; i < g.nops; ++i) {
    c.ops.push_back(genOp(r, g));
  }
  return c;
}

inline qc::Controls toControls(const std::vector<Ctl>& c) {
  qc::Controls r;
  for (const auto& x : c) {
    r.emplace(x.q, x.pos ? qc::Control::Type::Pos : qc::Control::Type::Neg);
  }
  return r;
}
inline std::unique_ptr<qc::Operation> toOperation(const Op& o) {
  switch (o.k) {
  case Op::Gate:
    return std::make_unique<qc::StandardOperation>(toControls(o.c), qc::Targets(o.t.begin(), o.t.end()), o.type,
                                                   o.p);
  case Op::GPhase:
    return std::make_unique<qc::StandardOperation>(toControls(o.c), qc::Targets{}, qc::GPhase, o.p);
  case Op::Barrier:
    return std::make_unique<qc::StandardOperation>(qc::Targets(o.t.begin(), o.t.end()), qc::Barrier);
  case Op::Measure:
    return std::make_unique<qc::NonUnitaryOperation>(std::vector<qc::Qubit>(o.t.begin(), o.t.end()),
                                                     std::vector<qc::Bit>(o.bits.begin(), o.bits.end()));
  case Op::Reset:
    return std::make_unique<qc::NonUnitaryOperation>(qc::Targets(o.t.begin(), o.t.end()));
  case Op::Compound: {
    auto c = std::make_unique<qc::CompoundOperation>();
    for (const auto& b : o.body) {
      c->emplace_back(toOperation(b));
    }
    return c;
  }
  case Op::If:
    if (o.condIsBit) {
      return std::make_unique<qc::ClassicControlledOperation>(toOperation(o.body.at(0)),
                                                              static_cast<qc::Bit>(o.condBits.at(0)), o.expected, o.cmp);
    }
    return std::make_unique<qc::ClassicControlledOperation>(
        toOperation(o.body.at(0)), qc::ClassicalRegister(o.condBits.at(0), o.condBits.size(), "c"), o.expected, o.cmp);
  }
  throw std::logic_error("toOperation");
}
// fluent interface: the gate methods of QuantumComputation
inline void addByMethod(qc::QuantumComputation& q, const Op& o) {
  const auto cs = toControls(o.c);
  const auto t0 = o.t.empty() ? 0U : o.t[0];
  const auto t1 = o.t.size() > 1 ? o.t[1] : 0U;
  const auto& p = o.p;
#define VF_S(T, f)                                                                                                     \
  case qc::T:                                                                                                          \
    if (cs.empty()) {                                                                                                  \
      q.f(t0);                                                                                                         \
    } else if (cs.size() == 1) {                                                                                       \
      q.c##f(*cs.begin(), t0);                                                                                         \
    } else {                                                                                                           \
      q.mc##f(cs, t0);                                                                                                 \
    }                                                                                                                  \
    break;
#define VF_S1(T, f)                                                                                                    \
  case qc::T:                                                                                                          \
    if (cs.empty()) {                                                                                                  \
      q.f(p[0], t0);                                                                                                   \
    } else if (cs.size() == 1) {                                                                                       \
      q.c##f(p[0], *cs.begin(), t0);                                                                                   \
    } else {                                                                                                           \
      q.mc##f(p[0], cs, t0);                                                                                           \
    }                                                                                                                  \
    break;
#define VF_T(T, f)                                                                                                     \
  case qc::T:                                                                                                          \
    if (cs.empty()) {                                                                                                  \
      q.f(t0, t1);                                                                                                     \
    } else if (cs.size() == 1) {                                                                                       \
      q.c##f(*cs.begin(), t0, t1);                                                                                     \
    } else {                                                                                                           \
      q.mc##f(cs, t0, t1);                                                                                             \
    }                                                                                                                  \
    break;
#define VF_T1(T, f)                                                                                                    \
  case qc::T:                                                                                                          \
    if (cs.empty()) {                                                                                                  \
      q.f(p[0], t0, t1);                                                                                               \
    } else if (cs.size() == 1) {                                                                                       \
      q.c##f(p[0], *cs.begin(), t0, t1);                                                                               \
    } else {                                                                                                           \
      q.mc##f(p[0], cs, t0, t1);                                                                                       \
    }                                                                                                                  \
    break;
#define VF_T2(T, f)                                                                                                    \
  case qc::T:                                                                                                          \
    if (cs.empty()) {                                                                                                  \
      q.f(p[0], p[1], t0, t1);                                                                                         \
    } else if (cs.size() == 1) {                                                                                       \
      q.c##f(p[0], p[1], *cs.begin(), t0, t1);                                                                         \
    } else {                                                                                                           \
      q.mc##f(p[0], p[1], cs, t0, t1);                                                                                 \
    }                                                                                                                  \
    break;
  switch (o.type) {
    VF_S(I, i)
    VF_S(X, x)
    VF_S(Y, y)
    VF_S(Z, z)
    VF_S(H, h)
    VF_S(S, s)
    VF_S(Sdg, sdg)
    VF_S(T, t)
    VF_S(Tdg, tdg)
    VF_S(V, v)
    VF_S(Vdg, vdg)
    VF_S(SX, sx)
    VF_S(SXdg, sxdg)
    VF_S1(RX, rx)
    VF_S1(RY, ry)
    VF_S1(RZ, rz)
    VF_S1(P, p)
    VF_T(SWAP, swap)
    VF_T(iSWAP, iswap)
    VF_T(iSWAPdg, iswapdg)
    VF_T(Peres, peres)
    VF_T(Peresdg, peresdg)
    VF_T(DCX, dcx)
    VF_T(ECR, ecr)
    VF_T1(RXX, rxx)
    VF_T1(RYY, ryy)
    VF_T1(RZZ, rzz)
    VF_T1(RZX, rzx)
    VF_T2(XXminusYY, xx_minus_yy)
    VF_T2(XXplusYY, xx_plus_yy)
  case qc::U2:
    if (cs.empty()) {
      q.u2(p[0], p[1], t0);
    } else if (cs.size() == 1) {
      q.cu2(p[0], p[1], *cs.begin(), t0);
    } else {
      q.mcu2(p[0], p[1], cs, t0);
    }
    break;
  case qc::U:
    if (cs.empty()) {
      q.u(p[0], p[1], p[2], t0);
    } else if (cs.size() == 1) {
      q.cu(p[0], p[1], p[2], *cs.begin(), t0);
    } else {
      q.mcu(p[0], p[1], p[2], cs, t0);
    }
    break;
  default:
    throw std::logic_error("addByMethod");
  }
#undef VF_S
#undef VF_S1
#undef VF_T
#undef VF_T1
#undef VF_T2
}
// builds the circuit, choosing between the gate methods and operation objects
inline void append(qc::QuantumComputation& q, const Op& o, Rng& r) {
  if (o.k == Op::Gate && r.chance(0.7)) {
    addByMethod(q, o);
  } else if (o.k == Op::GPhase && r.chance(0.7)) {
    q.gphase(o.p[0]);
  } else if (o.k == Op::Measure && r.chance(0.7)) {
    if (o.t.size() == 1) {
      q.measure(o.t[0], o.bits[0]);
    } else {
      q.measure(qc::Targets(o.t.begin(), o.t.end()), std::vector<qc::Bit>(o.bits.begin(), o.bits.end()));
    }
  } else if (o.k == Op::Reset && r.chance(0.7)) {
    if (o.t.size() == 1) {
      q.reset(o.t[0]);
    } else {
      q.reset(qc::Targets(o.t.begin(), o.t.end()));
    }
  } else if (o.k == Op::Barrier && r.chance(0.7)) {
    q.barrier(qc::Targets(o.t.begin(), o.t.end()));
  } else if (o.k == Op::If && o.body.at(0).k == Op::Gate && o.body[0].t.size() == 1 && r.chance(0.6)) {
    const auto& b = o.body[0];
    if (o.condIsBit) {
      q.classicControlled(b.type, b.t[0], toControls(b.c), static_cast<qc::Bit>(o.condBits[0]), o.expected, o.cmp, b.p);
    } else {
      qc::ClassicalRegister reg(o.condBits.at(0), o.condBits.size(), "c");
      for (const auto& [nm, rg] : q.getClassicalRegisters()) {
        if (rg.getStartIndex() == o.condBits.at(0) && rg.getSize() == o.condBits.size()) {
          reg = rg;
        }
      }
      q.classicControlled(b.type, b.t[0], toControls(b.c), reg, o.expected, o.cmp, b.p);
    }
  } else {
    q.emplace_back(toOperation(o));
  }
}
inline qc::QuantumComputation build(const Circ& c, Rng& r) {
  qc::QuantumComputation q(c.n, c.nc);
  if (c.gphase != 0) {
    q.gphase(c.gphase);
  }
  for (const auto& o : c.ops) {
    append(q, o, r);
  }
  return q;
}
} // namespace vf
