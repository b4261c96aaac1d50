// P11: inversion, inverse queries and commutation queries.
#include "common/ddutil.hpp"
#include "ir/operations/SymbolicOperation.hpp"
using namespace vf;
namespace {
constexpr double TOL = 1e-8;
GenCfg cfg(Rng& r, unsigned n) {
  GenCfg g;
  g.n = n;
  g.maxCtl = 3;
  g.compound = 0.2;
  g.gphase = 0.08;
  return g;
}
// controlled global phases do not occur in the shared generator
Op genAny(Rng& r, const GenCfg& g) {
  auto o = genOp(r, g);
  if (o.k == Op::GPhase && r.chance(0.4)) {
    const auto q = pickQubits(r, g.n, r.range(1, std::min<std::size_t>(g.n, 3)));
    for (const auto x : q) {
      o.c.push_back({x, !r.chance(0.35)});
    }
    std::sort(o.c.begin(), o.c.end(), [](const Ctl& a, const Ctl& b) { return a.q < b.q; });
  }
  return o;
}
std::unique_ptr<qc::Operation> make(const Op& o) { return toOperation(o); }
void names(Ctx& c, const qc::Operation& op) {
  if (op.isCompoundOperation()) {
    for (const auto& x : dynamic_cast<const qc::CompoundOperation&>(op)) {
      names(c, *x);
    }
    return;
  }
  c.check(op.getName() == qc::toString(op.getType()), "name-after-inversion",
          op.getName() + " for " + qc::toString(op.getType()));
}
void operation(Ctx& c) {
  auto& r = c.rng;
  const auto n = static_cast<unsigned>(r.range(1, 4));
  const auto g = cfg(r, n);
  const auto o = genAny(r, g);
  announce(c, cat("n=", n, " ") + str(o));
  const auto u = unitaryOf(o, n);
  auto op = make(o);
  const auto orig = op->clone();
  const auto inv = op->getInverted();
  c.check(dist(unitaryOf(lift(*op), n), u) < TOL, "inverted-copy-changed-source");
  c.check(dist(unitaryOf(lift(*inv), n), dagger(u)) < TOL, "inverse-operation", str(lift(*inv)));
  c.check(inv->getUsedQubits() == op->getUsedQubits(), "inverse-qubits");
  names(c, *inv);
  op->invert();
  c.check(dist(unitaryOf(lift(*op), n), dagger(u)) < TOL, "inverse-in-place", str(lift(*op)));
  c.check(*op == *inv, "in-place-differs-from-copy");
  const auto type = op->getType();
  op->invert();
  c.check(dist(unitaryOf(lift(*op), n), u) < TOL, "double-inversion", str(lift(*op)));
  c.check(op->getType() == orig->getType(), "double-inversion-type", qc::toString(type));
  names(c, *op);
  // inverse diagrams
  dd::Package dd(n);
  const auto a = dd::getInverseDD(*orig, dd);
  const auto b = dd::getDD(*inv, dd);
  c.check(dist(toMat(a, n), dagger(u)) < 1e-7, "inverse-diagram");
  c.check(dist(toMat(b, n), dagger(u)) < 1e-7, "diagram-of-inverse");
  c.count(std::string("gate ") + qc::toString(o.type));
  // queries: an operation and its inverse
  if (o.k != Op::Compound) {
    const bool rounded = orig->getType() == qc::U2; // shifts its parameters by multiples of pi
    if (!rounded) {
      c.check(orig->isInverseOf(*inv) && inv->isInverseOf(*orig), "inverse-not-recognised", str(lift(*inv)));
    }
  }
}
void mutate(Rng& r, Op& o, unsigned n) {
  if (o.k == Op::Compound) {
    if (o.body.size() > 1 && r.chance(0.4)) {
      r.shuffle(o.body);
    } else if (!o.body.empty()) {
      mutate(r, o.body[r.below(o.body.size())], n);
    }
    return;
  }
  switch (r.below(7)) {
  case 0:
    if (!o.p.empty()) {
      o.p[r.below(o.p.size())] *= -1;
    }
    break;
  case 1:
    if (o.p.size() > 1) {
      std::swap(o.p[0], o.p[o.p.size() - 1]);
    }
    break;
  case 2:
    if (o.t.size() > 1) {
      std::swap(o.t[0], o.t[1]);
    }
    break;
  case 3:
    if (!o.c.empty()) {
      auto& x = o.c[r.below(o.c.size())];
      x.pos = !x.pos;
    }
    break;
  case 4:
    if (!o.c.empty() && !o.t.empty()) {
      std::swap(o.c[0].q, o.t[0]);
    }
    break;
  case 5:
    if (o.k == Op::Gate) {
      for (int i = 0; i < 20; ++i) {
        const auto& g = r.pick(allGates());
        if (static_cast<std::size_t>(g.targets) == o.t.size() && static_cast<std::size_t>(g.params) == o.p.size()) {
          o.type = g.t;
          break;
        }
      }
    }
    break;
  default: { // another qubit
    std::set<unsigned> used(o.t.begin(), o.t.end());
    for (const auto& x : o.c) {
      used.insert(x.q);
    }
    const auto q = static_cast<unsigned>(r.below(n));
    if (used.count(q) == 0 && !o.t.empty()) {
      o.t[0] = q;
    }
  }
  }
}
// operations reported to be inverse of one another are
void inverseQuery(Ctx& c) {
  auto& r = c.rng;
  const auto n = static_cast<unsigned>(r.range(1, 4));
  auto g = cfg(r, n);
  if (r.chance(0.5)) {
    g.gates = {qc::X, qc::Z, qc::S, qc::Sdg, qc::T, qc::H, qc::RZ, qc::RX, qc::P, qc::SWAP, qc::DCX, qc::RZZ, qc::iSWAP, qc::U, qc::U2};
    if (n == 1) {
      g.gates = {qc::X, qc::Z, qc::S, qc::Sdg, qc::T, qc::H, qc::RZ};
    }
  }
  auto a = genAny(r, g);
  if (r.chance(0.4)) { // compound operations, sometimes with commuting constituents
    Op k;
    k.k = Op::Compound;
    k.type = qc::Compound;
    auto h = g;
    h.compound = 0.1;
    h.ctlProb = 0.3;
    const auto m = r.range(1, 5);
    for (std::size_t i = 0; i < m; ++i) {
      k.body.push_back(genAny(r, h));
    }
    a = k;
  }
  auto pa = make(a);
  auto b = lift(*pa->getInverted());
  const auto k = r.below(3);
  for (std::size_t i = 0; i < k; ++i) {
    mutate(r, b, n);
  }
  if (r.chance(0.1)) {
    b = genAny(r, g);
  }
  announce(c, cat("n=", n, " ") + str(a) + " / " + str(b));
  auto pb = make(b);
  bool x = false;
  bool y = false;
  x = pa->isInverseOf(*pb);
  y = pb->isInverseOf(*pa);
  const auto id = Mat::id(std::size_t{1} << n);
  const auto prod = unitaryOf(a, n) * unitaryOf(b, n);
  c.count(x ? "reported inverse" : "reported not inverse");
  if (x) {
    c.check(dist(prod, id) < 1e-7, "wrongly-reported-inverse", "first of second");
  }
  if (y) {
    c.check(dist(prod, id) < 1e-7, "wrongly-reported-inverse", "second of first");
  }
}
void commute(Ctx& c) {
  auto& r = c.rng;
  const auto n = static_cast<unsigned>(r.range(1, 4));
  auto g = cfg(r, n);
  g.ctlProb = 0.6;
  g.compound = 0.1;
  if (r.chance(0.6)) {
    g.gates = n == 1 ? std::vector<qc::OpType>{qc::X, qc::Z, qc::RZ, qc::RX, qc::U}
                     : std::vector<qc::OpType>{qc::X, qc::Z, qc::RZ, qc::P, qc::RZZ, qc::RX, qc::RXX, qc::U, qc::U2, qc::SWAP, qc::DCX, qc::XXminusYY, qc::XXplusYY};
  }
  auto a = genAny(r, g);
  auto b = genAny(r, g);
  if (r.chance(0.4)) {
    b = a;
    mutate(r, b, n);
    for (auto& p : b.p) {
      if (r.chance(0.4)) {
        p = randAngle(r);
      }
    }
    if (b.k == Op::Gate && !b.c.empty() && r.chance(0.3)) {
      b.c.pop_back();
    }
  }
  announce(c, cat("n=", n, " ") + str(a) + " / " + str(b));
  const auto pa = make(a);
  const auto pb = make(b);
  bool all = true;
  bool some = false;
  for (unsigned q = 0; q < n; ++q) {
    const bool both = pa->actsOn(q) && pb->actsOn(q);
    const auto qa = pa->getUsedQubits();
    c.check((qa.count(q) != 0) == pa->actsOn(q), "acts-on", cat(q));
    if (both) {
      some = true;
    }
    const auto s = pa->commutesAtQubit(*pb, q);
    if (!both) {
      c.check(s, "no-shared-qubit-reported-as-conflict", cat(q));
    }
    all = all && s;
  }
  c.count(!some ? "no shared qubit" : all ? "reported commuting" : "reported not commuting");
  if (all) {
    const auto ua = unitaryOf(a, n);
    const auto ub = unitaryOf(b, n);
    c.check(dist(ua * ub, ub * ua) < 1e-7, "wrongly-reported-commuting");
  }
}
void circuit(Ctx& c) {
  auto& r = c.rng;
  const auto n = static_cast<unsigned>(r.range(1, 4));
  auto g = cfg(r, n);
  g.nops = r.range(0, 14);
  Circ ci;
  ci.n = n;
  for (std::size_t i = 0; i < g.nops; ++i) {
    ci.ops.push_back(genOp(r, g));
  }
  if (r.chance(0.5)) {
    ci.gphase = randAngle(r);
  }
  auto q = vf::build(ci, r);
  const bool layout = r.chance(0.5);
  if (layout) {
    const auto a = r.perm(n);
    const auto b = r.perm(n);
    for (unsigned i = 0; i < n; ++i) {
      q.initialLayout[i] = static_cast<qc::Qubit>(a[i]);
      q.outputPermutation[i] = static_cast<qc::Qubit>(b[i]);
    }
  }
  announce(c, str(ci) + (layout ? " with layout" : ""));
  const auto u = unitaryOf(ci);
  const auto il = q.initialLayout;
  const auto op = q.outputPermutation;
  auto p = q;
  p.invert();
  c.check(q.initialLayout == il && dist(unitaryOf(lift(q)), u) < TOL, "inversion-changed-copy-source");
  c.check(dist(unitaryOf(lift(p)), dagger(u)) < TOL, "inverse-circuit");
  c.check(p.initialLayout == op && p.outputPermutation == il, "inverse-layout");
  c.check(p.getNops() == q.getNops() && p.getNqubits() == q.getNqubits(), "inverse-size");
  // the functionality of the inverted circuit on the logical qubits
  dd::Package dd(n);
  const auto f = dd::buildFunctionality(q, dd);
  const auto h = dd::buildFunctionality(p, dd);
  c.check(dist(toMat(h, n), dagger(toMat(f, n))) < 1e-6, "inverse-functionality");
  p.invert();
  c.check(dist(unitaryOf(lift(p)), u) < TOL, "double-inversion-circuit");
  c.check(p.initialLayout == il && p.outputPermutation == op, "double-inversion-layout");
}
void refuse(Ctx& c) {
  auto& r = c.rng;
  const auto n = static_cast<unsigned>(r.range(1, 4));
  auto g = cfg(r, n);
  g.nc = r.range(1, 3);
  g.nops = r.range(0, 5);
  auto ci = genCirc(r, g);
  auto h = g;
  h.compound = h.gphase = h.barrier = 0;
  if (r.chance(0.5)) {
    h.measure = 1;
  } else {
    h.reset = 1;
  }
  Op bad = genOp(r, h);
  if (r.chance(0.3)) {
    Op k;
    k.k = Op::Compound;
    k.type = qc::Compound;
    k.body = {genOp(r, g), bad};
    bad = k;
  }
  ci.ops.insert(ci.ops.begin() + static_cast<long>(r.below(ci.ops.size() + 1)), bad);
  announce(c, str(ci));
  auto q = vf::build(ci, r);
  auto threw = [&](const std::function<void()>& f) {
    try {
      f();
    } catch (const std::exception&) {
      return true;
    }
    return false;
  };
  const auto op = toOperation(bad);
  c.check(threw([&] { const auto x = op->getInverted(); }), "non-unitary-operation-inverted");
  c.check(threw([&] { q.invert(); }), "non-unitary-circuit-inverted");
}
// conditional operations: the inverse for every value of the condition
void conditional(Ctx& c) {
  auto& r = c.rng;
  const auto n = static_cast<unsigned>(r.range(1, 3));
  auto g = cfg(r, n);
  g.nc = r.range(1, 3);
  g.cregs = {{0, g.nc}};
  g.cond = 1;
  g.compound = g.gphase = g.barrier = 0;
  auto o = genOp(r, g);
  announce(c, str(o));
  auto op = toOperation(o);
  const auto inv = lift(*op->getInverted());
  for (std::size_t v = 0; v < (std::size_t{1} << g.nc); ++v) {
    std::vector<bool> bits(g.nc);
    for (std::size_t i = 0; i < g.nc; ++i) {
      bits[i] = ((v >> i) & 1U) != 0;
    }
    for (std::size_t b = 0; b < (std::size_t{1} << n); ++b) {
      std::vector<Branch> bs{{basis(n, b), bits}};
      applyOp(bs, o);
      applyOp(bs, inv);
      c.check(bs.size() == 1 && dist(bs[0].v, basis(n, b)) < TOL, "inverse-conditional", cat("bits ", v) + str(inv));
    }
  }
}
} // namespace
int main(int argc, char** argv) {
  return runMain(argc, argv, "P11",
                 {{"operation", 12000, 150000, operation},
                  {"inverse-query", 10000, 150000, inverseQuery},
                  {"commute", 20000, 300000, commute},
                  {"circuit", 4000, 50000, circuit},
                  {"refuse", 1500, 15000, refuse},
                  {"conditional", 1500, 15000, conditional}});
}
