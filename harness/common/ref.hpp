// Independent dense reference semantics for circuits (the oracle of most monitors).
#pragma once
#include "harness.hpp"
#include "ir/QuantumComputation.hpp"
#include "ir/operations/ClassicControlledOperation.hpp"
#include "ir/operations/CompoundOperation.hpp"
#include "ir/operations/NonUnitaryOperation.hpp"
#include "ir/operations/OpType.hpp"
#include "ir/operations/Operation.hpp"
#include "ir/operations/StandardOperation.hpp"

#include <optional>

namespace vf {
using C = std::complex<double>;
using Vec = std::vector<C>;
struct Mat {
  std::size_t n = 0;
  std::vector<C> a;
  Mat() = default;
  explicit Mat(std::size_t d) : n(d), a(d * d) {}
  C& at(std::size_t r, std::size_t c) { return a[r * n + c]; }
  const C& at(std::size_t r, std::size_t c) const { return a[r * n + c]; }
  static Mat id(std::size_t d) {
    Mat m(d);
    for (std::size_t i = 0; i < d; ++i) {
      m.at(i, i) = 1;
    }
    return m;
  }
};
inline Mat operator*(const Mat& x, const Mat& y) {
  Mat r(x.n);
  for (std::size_t i = 0; i < x.n; ++i) {
    for (std::size_t k = 0; k < x.n; ++k) {
      const C v = x.at(i, k);
      if (v == C{}) {
        continue;
      }
      for (std::size_t j = 0; j < x.n; ++j) {
        r.at(i, j) += v * y.at(k, j);
      }
    }
  }
  return r;
}
inline Mat operator+(const Mat& x, const Mat& y) {
  Mat r(x.n);
  for (std::size_t i = 0; i < x.a.size(); ++i) {
    r.a[i] = x.a[i] + y.a[i];
  }
  return r;
}
inline Mat scale(const Mat& x, C s) {
  Mat r = x;
  for (auto& v : r.a) {
    v *= s;
  }
  return r;
}
inline Mat kron(const Mat& x, const Mat& y) {
  Mat r(x.n * y.n);
  for (std::size_t i = 0; i < x.n; ++i) {
    for (std::size_t j = 0; j < x.n; ++j) {
      for (std::size_t k = 0; k < y.n; ++k) {
        for (std::size_t l = 0; l < y.n; ++l) {
          r.at(i * y.n + k, j * y.n + l) = x.at(i, j) * y.at(k, l);
        }
      }
    }
  }
  return r;
}
inline Mat dagger(const Mat& x) {
  Mat r(x.n);
  for (std::size_t i = 0; i < x.n; ++i) {
    for (std::size_t j = 0; j < x.n; ++j) {
      r.at(i, j) = std::conj(x.at(j, i));
    }
  }
  return r;
}
inline double dist(const Vec& x, const Vec& y) {
  if (x.size() != y.size()) {
    return 1e9;
  }
  double d = 0;
  for (std::size_t i = 0; i < x.size(); ++i) {
    const double e = std::abs(x[i] - y[i]);
    if (!(e <= d)) { // catches NaN as well
      d = std::isnan(e) ? 1e9 : e;
    }
  }
  return d;
}
inline double dist(const Mat& x, const Mat& y) { return dist(x.a, y.a); }
// distance of x and y up to a unit-modulus factor
inline double distPhase(const Vec& x, const Vec& y) {
  if (x.size() != y.size()) {
    return 1e9;
  }
  C ip = 0;
  for (std::size_t i = 0; i < x.size(); ++i) {
    ip += std::conj(x[i]) * y[i];
  }
  if (!(std::abs(ip) > 1e-12)) {
    return dist(x, y);
  }
  const C ph = ip / std::abs(ip);
  Vec z = x;
  for (auto& v : z) {
    v *= ph;
  }
  return dist(z, y);
}
// distance up to any non-zero scalar; both normalised first
inline double distScalar(Vec x, Vec y) {
  double nx = 0;
  double ny = 0;
  for (const auto& v : x) {
    nx += std::norm(v);
  }
  for (const auto& v : y) {
    ny += std::norm(v);
  }
  if (nx < 1e-24 || ny < 1e-24) {
    return (nx < 1e-24) == (ny < 1e-24) ? 0 : 1;
  }
  for (auto& v : x) {
    v /= std::sqrt(nx);
  }
  for (auto& v : y) {
    v /= std::sqrt(ny);
  }
  return distPhase(x, y);
}

struct Ctl {
  unsigned q;
  bool pos;
};
struct Op {
  enum Kind { Gate, GPhase, Barrier, Measure, Reset, If, Compound };
  Kind k = Gate;
  qc::OpType type = qc::None;
  std::vector<unsigned> t;
  std::vector<Ctl> c;
  std::vector<double> p;
  std::vector<std::size_t> bits;
  // If
  std::vector<std::size_t> condBits; // least significant first
  bool condIsBit = false;
  std::uint64_t expected = 1;
  qc::ComparisonKind cmp = qc::Eq;
  std::vector<Op> body; // If (one element), Compound
};
struct Circ {
  unsigned n = 0;
  std::size_t nc = 0;
  std::vector<Op> ops;
  double gphase = 0;
};

inline std::string str(const Op& o) {
  std::ostringstream s;
  s.precision(17);
  switch (o.k) {
  case Op::Gate:
  case Op::GPhase:
    s << (o.k == Op::GPhase ? std::string("gphase") : qc::toString(o.type));
    if (!o.p.empty()) {
      s << "(";
      for (std::size_t i = 0; i < o.p.size(); ++i) {
        s << (i ? "," : "") << o.p[i];
      }
      s << ")";
    }
    for (const auto& c : o.c) {
      s << (c.pos ? " +" : " -") << c.q;
    }
    for (const auto t : o.t) {
      s << " " << t;
    }
    break;
  case Op::Barrier:
  case Op::Reset:
    s << (o.k == Op::Reset ? "reset" : "barrier");
    for (const auto t : o.t) {
      s << " " << t;
    }
    break;
  case Op::Measure:
    s << "measure";
    for (std::size_t i = 0; i < o.t.size(); ++i) {
      s << " " << o.t[i] << "->" << o.bits[i];
    }
    break;
  case Op::If:
    s << "if(" << (o.condIsBit ? "bit" : "reg");
    for (const auto b : o.condBits) {
      s << " " << b;
    }
    s << " " << qc::toString(o.cmp) << " " << o.expected << "){" << str(o.body.at(0)) << "}";
    break;
  case Op::Compound:
    s << "{";
    for (const auto& b : o.body) {
      s << str(b) << "; ";
    }
    s << "}";
    break;
  }
  return s.str();
}
inline std::string str(const Circ& c) {
  std::string s = cat("n=", c.n, " nc=", c.nc);
  if (c.gphase != 0) {
    s += cat(" gphase=", c.gphase);
  }
  s += ": ";
  for (const auto& o : c.ops) {
    s += str(o) + "; ";
  }
  return s;
}

// ---------------------------------------------------------------- gate matrices
inline Mat m2(C a, C b, C c, C d) {
  Mat m(2);
  m.a = {a, b, c, d};
  return m;
}
inline Mat pauli(char p) {
  const C i(0, 1);
  switch (p) {
  case 'X':
    return m2(0, 1, 1, 0);
  case 'Y':
    return m2(0, -i, i, 0);
  case 'Z':
    return m2(1, 0, 0, -1);
  default:
    return m2(1, 0, 0, 1);
  }
}
// exp(-i theta/2 P)
inline Mat expP(double theta, const Mat& p) {
  return scale(Mat::id(p.n), std::cos(theta / 2)) + scale(p, C(0, -std::sin(theta / 2)));
}
inline Mat proj(int b) { return b ? m2(0, 0, 0, 1) : m2(1, 0, 0, 0); }

// two-qubit matrices: first target is the most significant bit
inline Mat gateMatrix(qc::OpType t, const std::vector<double>& p) {
  const C i(0, 1);
  const double r2 = 1 / std::sqrt(2.0);
  auto cx = [] { return kron(proj(0), pauli('I')) + kron(proj(1), pauli('X')); };
  auto xc = [] { return kron(pauli('I'), proj(0)) + kron(pauli('X'), proj(1)); };
  switch (t) {
  case qc::I:
    return Mat::id(2);
  case qc::X:
    return pauli('X');
  case qc::Y:
    return pauli('Y');
  case qc::Z:
    return pauli('Z');
  case qc::H:
    return scale(pauli('X') + pauli('Z'), r2);
  case qc::S:
    return m2(1, 0, 0, i);
  case qc::Sdg:
    return m2(1, 0, 0, -i);
  case qc::T:
    return m2(1, 0, 0, std::polar(1.0, M_PI / 4));
  case qc::Tdg:
    return m2(1, 0, 0, std::polar(1.0, -M_PI / 4));
  case qc::V:
    return expP(M_PI / 2, pauli('X'));
  case qc::Vdg:
    return expP(-M_PI / 2, pauli('X'));
  case qc::SX:
    return scale(expP(M_PI / 2, pauli('X')), std::polar(1.0, M_PI / 4));
  case qc::SXdg:
    return scale(expP(-M_PI / 2, pauli('X')), std::polar(1.0, -M_PI / 4));
  case qc::RX:
    return expP(p.at(0), pauli('X'));
  case qc::RY:
    return expP(p.at(0), pauli('Y'));
  case qc::RZ:
    return expP(p.at(0), pauli('Z'));
  case qc::P:
    return m2(1, 0, 0, std::polar(1.0, p.at(0)));
  case qc::U2: // u2(phi, lambda) = u(pi/2, phi, lambda)
  case qc::U: {
    const double th = t == qc::U ? p.at(0) : M_PI / 2;
    const double ph = t == qc::U ? p.at(1) : p.at(0);
    const double la = t == qc::U ? p.at(2) : p.at(1);
    return scale(expP(ph, pauli('Z')) * expP(th, pauli('Y')) * expP(la, pauli('Z')),
                 std::polar(1.0, (ph + la) / 2));
  }
  case qc::SWAP:
    return scale(Mat::id(4) + kron(pauli('X'), pauli('X')) + kron(pauli('Y'), pauli('Y')) +
                     kron(pauli('Z'), pauli('Z')),
                 0.5);
  case qc::iSWAP: // exp(i pi/4 (XX+YY))
    return expP(-M_PI / 2, kron(pauli('X'), pauli('X'))) * expP(-M_PI / 2, kron(pauli('Y'), pauli('Y')));
  case qc::iSWAPdg:
    return expP(M_PI / 2, kron(pauli('X'), pauli('X'))) * expP(M_PI / 2, kron(pauli('Y'), pauli('Y')));
  case qc::Peres: // cx(t0,t1), x(t0)
    return kron(pauli('X'), pauli('I')) * cx();
  case qc::Peresdg:
    return cx() * kron(pauli('X'), pauli('I'));
  case qc::DCX: // cx(t0,t1), cx(t1,t0)
    return xc() * cx();
  case qc::ECR: // (IX - XY)/sqrt2 with X/Y on first/second target as in the OpenQASM definition
    return kron(pauli('X'), pauli('I')) * expP(M_PI / 2, kron(pauli('Z'), pauli('X')));
  case qc::RXX:
    return expP(p.at(0), kron(pauli('X'), pauli('X')));
  case qc::RYY:
    return expP(p.at(0), kron(pauli('Y'), pauli('Y')));
  case qc::RZZ:
    return expP(p.at(0), kron(pauli('Z'), pauli('Z')));
  case qc::RZX:
    return expP(p.at(0), kron(pauli('Z'), pauli('X')));
  case qc::XXminusYY: {
    Mat m = Mat::id(4);
    m.at(0, 0) = m.at(3, 3) = std::cos(p.at(0) / 2);
    m.at(0, 3) = -i * std::polar(1.0, -p.at(1)) * std::sin(p.at(0) / 2);
    m.at(3, 0) = -i * std::polar(1.0, p.at(1)) * std::sin(p.at(0) / 2);
    return m;
  }
  case qc::XXplusYY: {
    Mat m = Mat::id(4);
    m.at(1, 1) = m.at(2, 2) = std::cos(p.at(0) / 2);
    m.at(2, 1) = -i * std::polar(1.0, -p.at(1)) * std::sin(p.at(0) / 2);
    m.at(1, 2) = -i * std::polar(1.0, p.at(1)) * std::sin(p.at(0) / 2);
    return m;
  }
  default:
    throw std::invalid_argument("reference: no matrix for gate " + qc::toString(t));
  }
}

inline void applyMatrix(Vec& v, const Mat& m, const std::vector<unsigned>& t, const std::vector<Ctl>& ctl) {
  const std::size_t k = t.size();
  const std::size_t dim = std::size_t{1} << k;
  std::size_t tmask = 0;
  for (const auto q : t) {
    tmask |= std::size_t{1} << q;
  }
  std::vector<std::size_t> idx(dim);
  Vec in(dim);
  for (std::size_t b = 0; b < v.size(); ++b) {
    if ((b & tmask) != 0) {
      continue;
    }
    bool on = true;
    for (const auto& c : ctl) {
      if ((((b >> c.q) & 1U) != 0) != c.pos) {
        on = false;
        break;
      }
    }
    if (!on) {
      continue;
    }
    for (std::size_t x = 0; x < dim; ++x) {
      std::size_t i = b;
      for (std::size_t j = 0; j < k; ++j) {
        if (((x >> (k - 1 - j)) & 1U) != 0) {
          i |= std::size_t{1} << t[j];
        }
      }
      idx[x] = i;
      in[x] = v[i];
    }
    for (std::size_t x = 0; x < dim; ++x) {
      C s = 0;
      for (std::size_t y = 0; y < dim; ++y) {
        s += m.at(x, y) * in[y];
      }
      v[idx[x]] = s;
    }
  }
}
inline double norm2(const Vec& v) {
  double s = 0;
  for (const auto& x : v) {
    s += std::norm(x);
  }
  return s;
}
inline void project(Vec& v, unsigned q, bool one) {
  for (std::size_t b = 0; b < v.size(); ++b) {
    if ((((b >> q) & 1U) != 0) != one) {
      v[b] = 0;
    }
  }
}
inline bool compare(std::uint64_t a, qc::ComparisonKind k, std::uint64_t e) {
  switch (k) {
  case qc::Eq:
    return a == e;
  case qc::Neq:
    return a != e;
  case qc::Lt:
    return a < e;
  case qc::Leq:
    return a <= e;
  case qc::Gt:
    return a > e;
  case qc::Geq:
    return a >= e;
  }
  return false;
}

struct Branch {
  Vec v; // unnormalised
  std::vector<bool> bits;
};
inline void applyOp(std::vector<Branch>& bs, const Op& o);
inline void applyUnitary(Vec& v, const Op& o) {
  switch (o.k) {
  case Op::Gate:
    applyMatrix(v, gateMatrix(o.type, o.p), o.t, o.c);
    break;
  case Op::GPhase: {
    // a controlled global phase acts only where its controls are satisfied
    const C ph = std::polar(1.0, o.p.at(0));
    for (std::size_t b = 0; b < v.size(); ++b) {
      bool on = true;
      for (const auto& c : o.c) {
        on = on && (((b >> c.q) & 1U) != 0) == c.pos;
      }
      if (on) {
        v[b] *= ph;
      }
    }
    break;
  }
  case Op::Barrier:
    break;
  case Op::Compound:
    for (const auto& b : o.body) {
      applyUnitary(v, b);
    }
    break;
  default:
    throw std::invalid_argument("reference: not a unitary operation: " + str(o));
  }
}
inline bool isUnitary(const Op& o) {
  if (o.k == Op::Compound) {
    return std::all_of(o.body.begin(), o.body.end(), [](const Op& b) { return isUnitary(b); });
  }
  return o.k == Op::Gate || o.k == Op::GPhase || o.k == Op::Barrier;
}
inline void applyOp(std::vector<Branch>& bs, const Op& o) {
  if (isUnitary(o)) {
    for (auto& b : bs) {
      applyUnitary(b.v, o);
    }
    return;
  }
  if (o.k == Op::Compound) {
    for (const auto& x : o.body) {
      applyOp(bs, x);
    }
    return;
  }
  if (o.k == Op::Measure || o.k == Op::Reset) {
    for (std::size_t j = 0; j < o.t.size(); ++j) {
      std::vector<Branch> nb;
      for (auto& b : bs) {
        for (int r = 0; r < 2; ++r) {
          Branch x = b;
          project(x.v, o.t[j], r == 1);
          if (norm2(x.v) < 1e-13) {
            continue;
          }
          if (o.k == Op::Measure) {
            x.bits.at(o.bits[j]) = r == 1;
          } else if (r == 1) {
            applyMatrix(x.v, pauli('X'), {o.t[j]}, {});
          }
          nb.push_back(std::move(x));
        }
      }
      bs = std::move(nb);
    }
    return;
  }
  if (o.k == Op::If) {
    std::vector<Branch> out;
    for (auto& b : bs) {
      std::uint64_t val = 0;
      for (std::size_t j = 0; j < o.condBits.size(); ++j) {
        if (b.bits.at(o.condBits[j])) {
          val |= std::uint64_t{1} << j;
        }
      }
      std::vector<Branch> one{std::move(b)};
      if (compare(val, o.cmp, o.expected)) {
        for (const auto& x : o.body) {
          applyOp(one, x);
        }
      }
      for (auto& x : one) {
        out.push_back(std::move(x));
      }
    }
    bs = std::move(out);
    return;
  }
  throw std::logic_error("reference: unknown operation");
}
inline Vec basis(unsigned n, std::size_t i) {
  Vec v(std::size_t{1} << n);
  v[i] = 1;
  return v;
}
inline std::vector<Branch> runBranches(const Circ& c, const Vec& in) {
  std::vector<Branch> bs{{in, std::vector<bool>(c.nc, false)}};
  for (const auto& o : c.ops) {
    applyOp(bs, o);
  }
  const C ph = std::polar(1.0, c.gphase);
  for (auto& b : bs) {
    for (auto& x : b.v) {
      x *= ph;
    }
  }
  return bs;
}
inline Vec runUnitary(const Circ& c, Vec v) {
  for (const auto& o : c.ops) {
    applyUnitary(v, o);
  }
  const C ph = std::polar(1.0, c.gphase);
  for (auto& x : v) {
    x *= ph;
  }
  return v;
}
inline Mat unitaryOf(const Circ& c) {
  const std::size_t d = std::size_t{1} << c.n;
  Mat m(d);
  for (std::size_t j = 0; j < d; ++j) {
    const auto v = runUnitary(c, basis(c.n, j));
    for (std::size_t i = 0; i < d; ++i) {
      m.at(i, j) = v[i];
    }
  }
  return m;
}
inline Mat unitaryOf(const Op& o, unsigned n) {
  Circ c;
  c.n = n;
  c.ops = {o};
  return unitaryOf(c);
}
inline Mat outer(const Vec& v) {
  Mat m(v.size());
  for (std::size_t i = 0; i < v.size(); ++i) {
    for (std::size_t j = 0; j < v.size(); ++j) {
      m.at(i, j) = v[i] * std::conj(v[j]);
    }
  }
  return m;
}
// classical outcome -> unnormalised density matrix: everything observable about a dynamic circuit
using Ensemble = std::map<std::vector<bool>, Mat>;
inline Ensemble ensemble(const std::vector<Branch>& bs) {
  Ensemble e;
  for (const auto& b : bs) {
    auto it = e.find(b.bits);
    if (it == e.end()) {
      e.emplace(b.bits, outer(b.v));
    } else {
      it->second = it->second + outer(b.v);
    }
  }
  return e;
}
inline double dist(const Ensemble& x, const Ensemble& y) {
  double d = 0;
  auto trace = [](const Mat& m) {
    double t = 0;
    for (std::size_t i = 0; i < m.n; ++i) {
      t += m.at(i, i).real();
    }
    return t;
  };
  for (const auto& [k, m] : x) {
    const auto it = y.find(k);
    d = std::max(d, it == y.end() ? trace(m) : dist(m, it->second));
  }
  for (const auto& [k, m] : y) {
    if (x.find(k) == x.end()) {
      d = std::max(d, trace(m));
    }
  }
  return d;
}
inline std::map<std::vector<bool>, double> outcomeDistribution(const std::vector<Branch>& bs) {
  std::map<std::vector<bool>, double> r;
  for (const auto& b : bs) {
    r[b.bits] += norm2(b.v);
  }
  return r;
}

// ---------------------------------------------------------------- reading circuits of the code under test
inline Op lift(const qc::Operation& op) {
  Op o;
  if (op.isClassicControlledOperation()) {
    const auto& cc = dynamic_cast<const qc::ClassicControlledOperation&>(op);
    o.k = Op::If;
    o.expected = cc.getExpectedValue();
    o.cmp = cc.getComparisonKind();
    if (const auto& r = cc.getControlRegister(); r.has_value()) {
      for (std::size_t i = 0; i < r->getSize(); ++i) {
        o.condBits.push_back(r->getStartIndex() + i);
      }
    } else {
      o.condIsBit = true;
      o.condBits.push_back(cc.getControlBit().value());
    }
    o.body.push_back(lift(*cc.getOperation()));
    return o;
  }
  if (op.isCompoundOperation()) {
    o.k = Op::Compound;
    for (const auto& x : dynamic_cast<const qc::CompoundOperation&>(op)) {
      o.body.push_back(lift(*x));
    }
    return o;
  }
  if (op.isSymbolicOperation()) {
    throw std::invalid_argument("reference: symbolic operation");
  }
  o.type = op.getType();
  o.t.assign(op.getTargets().begin(), op.getTargets().end());
  for (const auto& c : op.getControls()) {
    o.c.push_back({c.qubit, c.type == qc::Control::Type::Pos});
  }
  o.p = op.getParameter();
  switch (op.getType()) {
  case qc::Barrier:
    o.k = Op::Barrier;
    break;
  case qc::GPhase:
    o.k = Op::GPhase;
    break;
  case qc::Measure:
    o.k = Op::Measure;
    for (const auto b : dynamic_cast<const qc::NonUnitaryOperation&>(op).getClassics()) {
      o.bits.push_back(b);
    }
    if (o.bits.size() != o.t.size()) {
      throw std::invalid_argument("reference: measurement with different numbers of qubits and bits");
    }
    break;
  case qc::Reset:
    o.k = Op::Reset;
    break;
  default:
    o.k = Op::Gate;
  }
  return o;
}
inline Circ lift(const qc::QuantumComputation& q) {
  Circ c;
  c.n = static_cast<unsigned>(q.getNqubits());
  c.nc = q.getNcbits();
  c.gphase = q.getGlobalPhase();
  for (const auto& op : q) {
    c.ops.push_back(lift(*op));
  }
  return c;
}
inline void remap(Op& o, const std::function<unsigned(unsigned)>& f) {
  for (auto& t : o.t) {
    t = f(t);
  }
  for (auto& c : o.c) {
    c.q = f(c.q);
  }
  for (auto& b : o.body) {
    remap(b, f);
  }
}
} // namespace vf
