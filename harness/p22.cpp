// P22: equality of operations and circuits is sound, and hashes agree with it.
#include "common/ddutil.hpp"
#include "common/symgen.hpp"
#include <unordered_map>
using namespace vf;
namespace {
constexpr double TOL = 1e-8;
std::size_t specificHash(const qc::Operation& o) {
  if (o.isClassicControlledOperation()) {
    return std::hash<qc::ClassicControlledOperation>{}(dynamic_cast<const qc::ClassicControlledOperation&>(o));
  }
  if (o.isCompoundOperation()) {
    return std::hash<qc::CompoundOperation>{}(dynamic_cast<const qc::CompoundOperation&>(o));
  }
  if (o.isNonUnitaryOperation()) {
    return std::hash<qc::NonUnitaryOperation>{}(dynamic_cast<const qc::NonUnitaryOperation&>(o));
  }
  if (o.isSymbolicOperation()) {
    return std::hash<qc::SymbolicOperation>{}(dynamic_cast<const qc::SymbolicOperation&>(o));
  }
  return std::hash<qc::Operation>{}(o);
}
GenCfg cfg(Rng& r, unsigned n) {
  GenCfg g;
  g.n = n;
  g.nc = r.range(1, 3);
  if (g.nc > 1) {
    g.cregs = {{0, g.nc - 1}, {g.nc - 1, 1}, {0, g.nc}};
  } else {
    g.cregs = {{0, 1}};
  }
  g.ctlProb = 0.6;
  g.compound = 0.1;
  g.gphase = 0.05;
  g.barrier = 0.05;
  g.measure = 0.1;
  g.reset = 0.06;
  g.cond = 0.15;
  if (r.chance(0.4)) {
    g.gates = n == 1 ? std::vector<qc::OpType>{qc::Z, qc::S, qc::RZ, qc::P, qc::X, qc::U2, qc::I}
                     : std::vector<qc::OpType>{qc::Z, qc::S, qc::RZ, qc::P, qc::X, qc::RZZ, qc::SWAP, qc::DCX, qc::I, qc::T};
  }
  return g;
}
void mutate(Rng& r, Op& o, const GenCfg& g) {
  if (o.k == Op::Compound) {
    if (o.body.empty()) {
      return;
    }
    switch (r.below(5)) {
    case 0:
      r.shuffle(o.body);
      break;
    case 1:
      o.body.pop_back();
      break;
    case 2:
      o.body.push_back(o.body[r.below(o.body.size())]);
      break;
    default:
      mutate(r, o.body[r.below(o.body.size())], g);
    }
    return;
  }
  if (o.k == Op::If) {
    switch (r.below(6)) {
    case 0:
      o.expected = o.condIsBit ? 1 - std::min<std::uint64_t>(o.expected, 1) : r.below(std::uint64_t{1} << o.condBits.size());
      break;
    case 1:
      o.cmp = o.condIsBit ? (o.cmp == qc::Eq ? qc::Neq : qc::Eq) : static_cast<qc::ComparisonKind>(r.below(6));
      break;
    case 2: {
      const auto& [s, k] = r.pick(g.cregs);
      o.condIsBit = false;
      o.condBits.clear();
      for (std::size_t i = 0; i < k; ++i) {
        o.condBits.push_back(s + i);
      }
      break;
    }
    case 3:
      o.condIsBit = true;
      o.condBits = {r.below(g.nc)};
      o.expected = std::min<std::uint64_t>(o.expected, 1);
      if (o.cmp != qc::Eq) {
        o.cmp = qc::Neq;
      }
      break;
    default:
      mutate(r, o.body.at(0), g);
    }
    return;
  }
  switch (r.below(9)) {
  case 0:
    if (!o.p.empty()) {
      o.p[r.below(o.p.size())] *= -1;
    }
    break;
  case 1:
    if (!o.p.empty()) {
      o.p[r.below(o.p.size())] += r.chance(0.5) ? 2 * M_PI : 0.25;
    }
    break;
  case 2:
    if (o.t.size() > 1) {
      r.shuffle(o.t);
    }
    break;
  case 3:
    if (!o.c.empty()) {
      auto& x = o.c[r.below(o.c.size())];
      x.pos = !x.pos;
    }
    break;
  case 4:
    if (!o.c.empty() && !o.t.empty()) {
      std::swap(o.c[r.below(o.c.size())].q, o.t[r.below(o.t.size())]);
    }
    break;
  case 5:
    if (o.c.size() > 1) {
      std::swap(o.c[0].pos, o.c.back().pos);
    }
    break;
  case 6:
    if (o.k == Op::Gate) {
      for (int i = 0; i < 20; ++i) {
        const auto& x = r.pick(allGates());
        if (static_cast<std::size_t>(x.targets) == o.t.size() && static_cast<std::size_t>(x.params) == o.p.size()) {
          o.type = x.t;
          break;
        }
      }
    } else if (o.k == Op::Measure && r.chance(0.5)) {
      r.shuffle(o.bits);
    } else if (o.k == Op::Measure) {
      auto b = r.perm(g.nc);
      b.resize(o.bits.size());
      o.bits = b;
    }
    break;
  case 7:
    if (!o.c.empty()) {
      o.c.pop_back();
    }
    break;
  default: {
    std::set<unsigned> used(o.t.begin(), o.t.end());
    for (const auto& x : o.c) {
      used.insert(x.q);
    }
    const auto q = static_cast<unsigned>(r.below(g.n));
    if (used.count(q) == 0 && !o.t.empty()) {
      o.t[r.below(o.t.size())] = q;
    }
  }
  }
  std::sort(o.c.begin(), o.c.end(), [](const Ctl& x, const Ctl& y) { return x.q < y.q; });
}
// an operation's meaning: what it does to a generic state for every value of the classical bits
struct Meaning {
  bool unitary;
  Mat u;
  std::vector<Ensemble> e;
};
Meaning meaning(const Op& o, unsigned n, std::size_t nc, const std::vector<Vec>& in) {
  Meaning m{isUnitary(o), {}, {}};
  if (m.unitary) {
    m.u = unitaryOf(o, n);
    return m;
  }
  for (std::size_t v = 0; v < (std::size_t{1} << nc); ++v) {
    std::vector<bool> bits(nc);
    for (std::size_t i = 0; i < nc; ++i) {
      bits[i] = ((v >> i) & 1U) != 0;
    }
    for (const auto& x : in) {
      std::vector<Branch> bs{{x, bits}};
      applyOp(bs, o);
      m.e.push_back(ensemble(bs));
    }
  }
  return m;
}
double dist(const Meaning& x, const Meaning& y) {
  if (x.unitary != y.unitary) {
    return 9;
  }
  if (x.unitary) {
    return vf::dist(x.u, y.u);
  }
  double d = 0;
  for (std::size_t i = 0; i < x.e.size(); ++i) {
    d = std::max(d, vf::dist(x.e[i], y.e[i]));
  }
  return d;
}
void operation(Ctx& c) {
  auto& r = c.rng;
  const auto n = static_cast<unsigned>(r.range(1, 4));
  const auto g = cfg(r, n);
  const auto a = genOp(r, g);
  auto b = a;
  const auto k = r.below(3);
  for (std::size_t i = 0; i < k; ++i) {
    mutate(r, b, g);
  }
  announce(c, cat("n=", n, " nc=", g.nc, " ") + str(a) + " / " + str(b));
  const auto pa = toOperation(a);
  const auto pb = toOperation(b);
  const std::vector<Vec> in{randState(r, n), randState(r, n)};
  const auto ma = meaning(a, n, g.nc, in);
  const auto mb = meaning(b, n, g.nc, in);
  const bool eq = *pa == *pb;
  c.count(eq ? "equal" : "unequal");
  c.check(eq == (*pb == *pa) && eq != (*pa != *pb) && eq == pa->equals(*pb), "equality-inconsistent");
  if (eq) {
    c.check(dist(ma, mb) < TOL, "equal-operations-differ");
    c.check(std::hash<qc::Operation>{}(*pa) == std::hash<qc::Operation>{}(*pb), "equal-operations-hash");
    c.check(specificHash(*pa) == specificHash(*pb), "equal-operations-hash-of-kind");
  }
  if (k == 0) {
    c.check(eq, "same-construction-unequal");
  }
  const auto cl = pa->clone();
  c.check(*cl == *pa && *pa == *cl, "clone-unequal");
  c.check(std::hash<qc::Operation>{}(*cl) == std::hash<qc::Operation>{}(*pa) && specificHash(*cl) == specificHash(*pa),
          "clone-hash");
  if (!pa->isNonUnitaryOperation() && !pb->isCompoundOperation() && !pa->isCompoundOperation()) {
    const auto lifted = lift(*pa);
    c.check(dist(meaning(lifted, n, g.nc, in), ma) < TOL, "built-operation");
  }
  // equality up to relabelling of qubits
  const auto p = r.perm(n);
  const auto q = r.perm(n);
  qc::Permutation pp;
  qc::Permutation qq;
  for (unsigned i = 0; i < n; ++i) {
    pp[i] = static_cast<qc::Qubit>(p[i]);
    qq[i] = static_cast<qc::Qubit>(q[i]);
  }
  auto ra = a;
  auto rb = b;
  auto fix = [](Op& o, auto&& self) -> void {
    std::sort(o.c.begin(), o.c.end(), [](const Ctl& x, const Ctl& y) { return x.q < y.q; });
    for (auto& x : o.body) {
      self(x, self);
    }
  };
  remap(ra, [&](unsigned x) { return static_cast<unsigned>(p[x]); });
  remap(rb, [&](unsigned x) { return static_cast<unsigned>(q[x]); });
  fix(ra, fix);
  fix(rb, fix);
  const auto pra = toOperation(ra);
  const auto prb = toOperation(rb);
  const qc::Permutation none{};
  const bool direct = *pra == *prb;
  c.check(pa->equals(*pb, pp, qq) == direct, "equality-with-two-permutations", cat(direct));
  c.check(pa->equals(*pra, pp, none), "equality-with-permutation", "first");
  c.check(pra->equals(*pa, none, pp), "equality-with-permutation", "second");
  c.check(pa->equals(*pb, pp, none) == (*pra == *pb), "equality-with-permutation", "first, other operation");
  auto moved = pa->clone();
  moved->apply(pp);
  c.check(*moved == *pra, "relabelled-operation");
  // a set of operations keeps representatives of all its elements
  if (r.chance(0.2)) {
    struct H {
      std::size_t operator()(const qc::Operation* o) const { return std::hash<qc::Operation>{}(*o); }
    };
    struct E {
      bool operator()(const qc::Operation* x, const qc::Operation* y) const { return *x == *y; }
    };
    std::unordered_map<const qc::Operation*, Meaning, H, E> m;
    std::vector<std::unique_ptr<qc::Operation>> keep;
    std::vector<Op> os;
    for (int i = 0; i < 12; ++i) {
      auto o = a;
      for (std::size_t j = r.below(3); j > 0; --j) {
        mutate(r, o, g);
      }
      os.push_back(o);
      keep.push_back(toOperation(o));
      const auto mo = meaning(o, n, g.nc, in);
      const auto [it, fresh] = m.emplace(keep.back().get(), mo);
      c.check(fresh || dist(it->second, mo) < TOL, "set-merges-different-operations", str(o));
    }
    for (std::size_t i = 0; i < os.size(); ++i) {
      c.check(m.count(toOperation(os[i]).get()) == 1, "set-loses-operation", str(os[i]));
      for (std::size_t j = 0; j < os.size(); ++j) { // transitivity
        for (std::size_t l = 0; l < os.size(); ++l) {
          if (*keep[i] == *keep[j] && *keep[j] == *keep[l]) {
            c.check(*keep[i] == *keep[l], "equality-not-transitive");
          }
        }
      }
    }
  }
}
void symbolic(Ctx& c) {
  auto& r = c.rng;
  GenCfg g;
  g.n = static_cast<unsigned>(r.range(1, 4));
  g.ctlProb = 0.5;
  if (r.chance(0.5)) {
    g.gates = {qc::RZ, qc::P, qc::U, qc::U2, qc::RX};
    if (g.n > 1) {
      g.gates.insert(g.gates.end(), {qc::RZZ, qc::XXplusYY});
    }
  }
  const auto a = genSymGate(r, g, r.chance(0.8) ? 0.7 : 0);
  auto b = a;
  for (std::size_t i = r.below(3); i > 0; --i) {
    switch (r.below(5)) {
    case 0:
      if (!b.e.empty()) {
        b.e[r.below(b.e.size())] = genSym(r, 0.6);
      }
      break;
    case 1:
      if (!b.e.empty()) {
        auto& e = b.e[r.below(b.e.size())];
        if (e.symbolic) {
          for (auto& [v, k] : e.coef) {
            k += 1;
          }
        }
        e.c += r.chance(0.5) ? 0.5 : 0;
      }
      break;
    case 2:
      if (b.e.size() > 1) {
        std::swap(b.e[0], b.e[1]);
      }
      break;
    case 3:
      if (!b.e.empty() && b.e[0].symbolic && !b.e[0].coef.empty()) {
        const auto k = b.e[0].coef.begin()->second;
        b.e[0].coef.erase(b.e[0].coef.begin());
        b.e[0].coef[r.pick(symVars())] = k;
      }
      break;
    default:
      mutate(r, b.op, g);
      if (b.op.p.size() != 0) {
        b.op.p.clear();
      }
    }
  }
  announce(c, cat("n=", g.n, " ") + str(a) + " / " + str(b));
  const auto pa = toOperation(a);
  const auto pb = toOperation(b);
  const bool eq = *pa == *pb;
  c.count(eq ? "equal symbolic" : "unequal symbolic");
  c.check(eq == (*pb == *pa), "equality-inconsistent");
  if (eq) {
    for (int i = 0; i < 3; ++i) {
      Assign x;
      for (const auto& v : symVars()) {
        x[v] = r.uniform(-4, 4);
      }
      c.check(vf::dist(unitaryOf(resolve(a, x), g.n), unitaryOf(resolve(b, x), g.n)) < TOL, "equal-operations-differ");
    }
    c.check(std::hash<qc::Operation>{}(*pa) == std::hash<qc::Operation>{}(*pb), "equal-operations-hash");
    c.check(specificHash(*pa) == specificHash(*pb), "equal-operations-hash-of-kind");
  }
  const auto cl = pa->clone();
  c.check(*cl == *pa && *pa == *cl, "clone-unequal");
  const auto again = toOperation(a);
  c.check(*again == *pa, "same-construction-unequal");
}
// circuits: a copy is equal, any single difference makes them unequal
void circuit(Ctx& c) {
  auto& r = c.rng;
  const auto n = static_cast<unsigned>(r.range(2, 4));
  auto g = cfg(r, n);
  g.nops = r.range(1, 10);
  auto ci = genCirc(r, g);
  if (r.chance(0.4)) {
    ci.gphase = randAngle(r);
  }
  Rng r1 = r;
  Rng r2 = r;
  auto mk = [&](Rng& x, const Circ& y, const std::string& qn, const std::string& cn, unsigned nq, std::size_t nc) {
    qc::QuantumComputation q;
    q.addQubitRegister(nq, qn);
    q.addClassicalRegister(nc, cn);
    if (y.gphase != 0) {
      q.gphase(y.gphase);
    }
    for (const auto& o : y.ops) {
      append(q, o, x);
    }
    return q;
  };
  const auto q = mk(r1, ci, "q", "c", n, g.nc);
  const auto same = mk(r2, ci, "q", "c", n, g.nc);
  announce(c, str(ci));
  c.check(q == q && q == same && same == q && !(q != same), "same-construction-unequal");
  auto cp = q;
  c.check(cp == q && q == cp, "copy-unequal");
  Rng r3 = r1;
  std::string what;
  switch (r.below(9)) {
  case 0:
    cp.gphase(0.5);
    what = "global phase";
    break;
  case 1:
    cp.initialLayout[0] = q.initialLayout.at(1);
    cp.initialLayout[1] = q.initialLayout.at(0);
    what = "initial layout";
    break;
  case 2:
    std::swap(cp.outputPermutation.begin()->second, std::next(cp.outputPermutation.begin())->second);
    if (cp.outputPermutation == q.outputPermutation) {
      throw Skip{};
    }
    what = "output permutation";
    break;
  case 3:
    cp.setLogicalQubitGarbage(static_cast<qc::Qubit>(r.below(n)));
    what = "garbage";
    break;
  case 4:
    cp.setLogicalQubitAncillary(static_cast<qc::Qubit>(r.below(n)));
    what = "ancillary";
    break;
  case 5:
    cp.z(static_cast<qc::Qubit>(r.below(n)));
    what = "additional operation";
    break;
  case 6:
    if (cp.getNops() == 0) {
      throw Skip{};
    }
    cp.erase(cp.begin() + static_cast<long>(r.below(cp.getNops())));
    what = "missing operation";
    break;
  case 7:
    cp.addClassicalRegister(1, "extra");
    what = "classical register";
    break;
  default: {
    auto d = ci;
    if (d.ops.empty()) {
      throw Skip{};
    }
    auto& o = d.ops[r.below(d.ops.size())];
    const auto before = o;
    for (std::size_t i = r.range(1, 2); i > 0; --i) {
      mutate(r, o, g);
    }
    const auto mod = mk(r3, d, "q", "c", n, g.nc);
    const std::vector<Vec> in{randState(r, n)};
    const bool eq = q == mod;
    c.check(eq == (mod == q), "equality-inconsistent");
    c.count(eq ? "equal circuits" : "unequal circuits");
    if (eq) {
      c.check(dist(meaning(before, n, g.nc, in), meaning(o, n, g.nc, in)) < TOL, "equal-circuits-differ", str(o));
    }
    return;
  }
  }
  c.count("circuit difference: " + what);
  c.check(cp != q && q != cp && !(cp == q), "different-circuits-equal", what);
}
void permutation(Ctx& c) {
  auto& r = c.rng;
  const auto n = r.range(1, 6);
  const auto p = r.perm(n);
  const auto q = r.perm(n);
  std::ostringstream s;
  qc::Permutation a;
  qc::Permutation b;
  qc::Permutation d;
  for (std::size_t i = 0; i < n; ++i) {
    a[static_cast<qc::Qubit>(i)] = static_cast<qc::Qubit>(p[i]);
    b[static_cast<qc::Qubit>(i)] = static_cast<qc::Qubit>(q[i]);
    s << p[i] << "/" << q[i] << " ";
  }
  for (std::size_t i = n; i-- > 0;) {
    d[static_cast<qc::Qubit>(i)] = static_cast<qc::Qubit>(p[i]);
  }
  announce(c, s.str());
  c.check((a == b) == (p == q), "permutation-equality");
  c.check(a == d && std::hash<qc::Permutation>{}(a) == std::hash<qc::Permutation>{}(d), "permutation-hash");
  qc::Controls cs;
  qc::Targets ts;
  for (std::size_t i = 0; i < n; ++i) {
    if (r.chance(0.5)) {
      cs.emplace(static_cast<qc::Qubit>(i), r.chance(0.5) ? qc::Control::Type::Pos : qc::Control::Type::Neg);
    } else {
      ts.push_back(static_cast<qc::Qubit>(i));
    }
  }
  const auto pc = a.apply(cs);
  const auto pt = a.apply(ts);
  bool ok = pc.size() == cs.size() && pt.size() == ts.size();
  for (const auto& x : cs) {
    ok = ok && pc.count({static_cast<qc::Qubit>(p[x.qubit]), x.type}) == 1;
  }
  for (std::size_t i = 0; i < ts.size(); ++i) {
    ok = ok && pt[i] == p[ts[i]];
  }
  c.check(ok, "permutation-application");
  // controls: ordering and equality
  const auto rc = [&] { return qc::Control{static_cast<qc::Qubit>(r.below(3)), r.chance(0.5) ? qc::Control::Type::Pos : qc::Control::Type::Neg}; };
  const auto x = rc();
  const auto y = rc();
  const bool e = x.qubit == y.qubit && x.type == y.type;
  c.check((x == y) == e && (x != y) != e && (!e || std::hash<qc::Control>{}(x) == std::hash<qc::Control>{}(y)), "control-equality");
  c.check((static_cast<int>(x < y) + static_cast<int>(y < x)) == (e ? 0 : 1), "control-order");
}
} // namespace
int main(int argc, char** argv) {
  return runMain(argc, argv, "P22",
                 {{"operation", 25000, 300000, operation},
                  {"symbolic", 10000, 120000, symbolic},
                  {"circuit", 6000, 60000, circuit},
                  {"permutation", 3000, 30000, permutation}});
}
