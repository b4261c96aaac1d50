// P04: canonicity, garbage collection, resets.
#include "common/pool.hpp"
using namespace vf;
namespace {
bool eqw(const dd::Complex& a, const dd::Complex& b) { return a.r == b.r && a.i == b.i; }
template <class Node> void reach(const dd::Edge<Node>& e, std::set<const Node*>& s) {
  if (e.isTerminal() || !s.insert(e.p).second) {
    return;
  }
  for (const auto& x : e.p->e) {
    reach(x, s);
  }
}
// operation histories interleaved with collections, cache clearing, releases
void collections(Ctx& c) {
  auto& r = c.rng;
  const auto n = static_cast<unsigned>(r.range(1, 4));
  auto cfg = randConfig(r);
  if (r.chance(0.03)) { // tables larger than the default
    cfg.ctVecConjNumBucket = cfg.ctMatConjTransNumBucket = std::size_t{1} << 17;
  }
  dd::Package dd(2 * n + r.below(2), cfg);
  const auto rounds = r.chance(0.3) ? 3 : 1;
  for (int round = 0; round < rounds; ++round) {
    Pool p(c, dd, n);
    p.gc = true;
    const auto steps = r.range(10, 40);
    for (std::size_t i = 0; i < steps; ++i) {
      p.step();
    }
    p.revisit();
    // whatever is not reachable from a referenced diagram is released
    dd.garbageCollect(true);
    std::set<const dd::vNode*> sv;
    std::set<const dd::mNode*> sm;
    for (const auto& o : p.vs) {
      reach(o.e, sv);
    }
    for (const auto& o : p.ms) {
      reach(o.e, sm);
    }
    c.check(dd.vUniqueTable.getNumEntries() <= sv.size(), "vector-nodes-not-released",
            cat(dd.vUniqueTable.getNumEntries(), " nodes kept, ", sv.size(), " reachable"));
    c.check(dd.vUniqueTable.getNumEntries() >= sv.size(), "referenced-vector-nodes-lost");
    c.check(dd.mUniqueTable.getNumEntries() <= sm.size(), "matrix-nodes-not-released",
            cat(dd.mUniqueTable.getNumEntries(), " nodes kept, ", sm.size(), " reachable"));
    c.check(dd.mUniqueTable.getNumEntries() >= sm.size(), "referenced-matrix-nodes-lost");
    c.count("released-checks");
    p.revisit();
    c.fingerprint += p.log;
    c.count("steps", p.ops);
    if (round + 1 < rounds) {
      if (r.chance(0.5)) {
        p.note("package reset");
        dd.reset(); // everything is gone: a fresh start in the same memory
        c.count("resets");
      } else {
        for (const auto& o : p.vs) {
          dd.decRef(o.e);
        }
        for (const auto& o : p.ms) {
          dd.decRef(o.e);
        }
        dd.garbageCollect(true);
        c.check(dd.vUniqueTable.getNumEntries() == 0 && dd.mUniqueTable.getNumEntries() == 0, "nodes-left-after-releasing-all",
                cat(dd.vUniqueTable.getNumEntries(), " ", dd.mUniqueTable.getNumEntries()));
      }
    }
  }
}

// Circuits over exactly representable structure: the same object obtained in many ways is one node.
const std::vector<qc::OpType> EXACT{qc::X, qc::Y, qc::Z, qc::H, qc::S, qc::Sdg, qc::T, qc::Tdg, qc::SX, qc::SXdg, qc::SWAP, qc::iSWAP, qc::DCX, qc::ECR};
template <class E> void same(Ctx& c, const E& a, const E& b, const std::string& key) {
  c.check(a.p == b.p && eqw(a.w, b.w), key, cat("nodes ", a.p == b.p ? "equal" : "differ", ", weights ", dd::ComplexValue(a.w), " and ", dd::ComplexValue(b.w)));
}
void paths(Ctx& c) {
  auto& r = c.rng;
  GenCfg g;
  g.n = static_cast<unsigned>(r.range(1, 4));
  g.nops = r.range(1, 12);
  g.gates = EXACT;
  g.compound = 0;
  dd::Package dd(g.n + 1, randConfig(r));
  auto circ = genCirc(r, g);
  announce(c, str(circ));
  const auto q = build(circ, r);
  auto maybeCollect = [&] {
    if (r.chance(0.4)) {
      dd.garbageCollect(true);
    }
  };
  const auto f = dd::buildFunctionality(q, dd);
  maybeCollect();
  auto again = dd::buildFunctionality(q, dd);
  same(c, f, again, "functionality-rebuilt");
  maybeCollect();
  const auto rec = dd::buildFunctionalityRecursive(q, dd);
  same(c, f, rec, "sequential-and-recursive");
  maybeCollect();
  // dense matrix of the diagram, and of the oracle
  const auto u = unitaryOf(circ);
  auto dense = dd.makeDDFromMatrix(toCMat(u));
  same(c, f, dense, "matrix-from-dense");
  // inserting pairs of a gate and its inverse changes nothing
  {
    auto longer = circ;
    for (int t = 0; t < 3; ++t) {
      auto op = genGate(r, g);
      if (op.k != Op::Gate) {
        continue;
      }
      const auto pos = r.below(longer.ops.size() + 1);
      auto m = toOperation(op);
      m->invert();
      longer.ops.insert(longer.ops.begin() + static_cast<std::ptrdiff_t>(pos), lift(*m));
      longer.ops.insert(longer.ops.begin() + static_cast<std::ptrdiff_t>(pos), op);
    }
    const auto l = dd::buildFunctionality(build(longer, r), dd);
    same(c, f, l, "after-inverse-pairs");
    dd.decRef(l);
  }
  maybeCollect();
  {
    auto d1 = dd.conjugateTranspose(f);
    dd.incRef(d1);
    maybeCollect();
    auto d2 = dd.conjugateTranspose(d1);
    same(c, f, d2, "double-conjugate-transpose");
    dd.incRef(d2);
    auto id = dd.multiply(d1, f);
    c.check(id.isIdentity() && dd.isCloseToIdentity(id), "inverse-times-matrix-not-identity");
    dd.decRef(d1);
    dd.decRef(d2);
  }
  // states
  std::vector<bool> bits(g.n);
  std::size_t idx = 0;
  for (unsigned i = 0; i < g.n; ++i) {
    bits[i] = r.chance(0.5);
    idx |= static_cast<std::size_t>(bits[i]) << i;
  }
  auto in = dd.makeBasisState(g.n, bits);
  dd.incRef(in);
  const auto s = dd::simulate(q, in, dd);
  maybeCollect();
  const auto prod = dd.multiply(f, in);
  same(c, s, prod, "simulate-and-multiply");
  const auto v = runUnitary(circ, basis(g.n, idx));
  const auto direct = dd.makeStateFromVector(dd::CVec(v.begin(), v.end()));
  same(c, s, direct, "state-from-dense");
  maybeCollect();
  // sum of the two halves
  auto lo = v;
  auto hi = v;
  const auto qb = r.below(g.n);
  for (std::size_t i = 0; i < v.size(); ++i) {
    (((i >> qb) & 1U) != 0 ? lo : hi)[i] = 0;
  }
  const auto a = dd.makeStateFromVector(dd::CVec(lo.begin(), lo.end()));
  dd.incRef(a);
  const auto b = dd.makeStateFromVector(dd::CVec(hi.begin(), hi.end()));
  dd.incRef(b);
  maybeCollect();
  same(c, s, dd.add(a, b), "sum-of-halves");
  same(c, s, dd.add(b, a), "sum-of-halves-swapped");
  dd.decRef(a);
  dd.decRef(b);
  const auto cc = dd.conjugate(s);
  dd.incRef(cc);
  maybeCollect();
  same(c, s, dd.conjugate(cc), "double-conjugate");
  c.count("identities", 10);
}
// the table of numbers: one representative per value, whatever was looked up, collected or inserted before
void numbers(Ctx& c) {
  auto& r = c.rng;
  dd::Package dd(1);
  struct Held {
    double v;
    dd::Complex x;
  };
  std::vector<Held> held;
  const double eps = dd::RealNumber::eps;
  // a few neighbourhoods, among them bucket borders of any power-of-two resolution
  std::vector<double> centres;
  for (int i = 0; i < 3; ++i) {
    const auto k = r.range(1, 65535);
    switch (r.below(4)) {
    case 0:
      centres.push_back((static_cast<double>(k) + 0.5) / 65536.);
      break;
    case 1:
      centres.push_back(static_cast<double>(k) / 65536.);
      break;
    case 2:
      centres.push_back(r.uniform(0, 1));
      break;
    default:
      centres.push_back(1 + r.unit() * 3);
    }
  }
  std::string log;
  const auto steps = r.range(20, 120);
  for (std::size_t i = 0; i < steps; ++i) {
    const auto k = r.below(12);
    if (k == 0 && !held.empty()) {
      dd.garbageCollect(true);
      c.count("forced-collections");
    } else if (k == 1 && !held.empty()) {
      const auto j = r.below(held.size());
      dd.cn.decRef(held[j].x);
      held.erase(held.begin() + static_cast<std::ptrdiff_t>(j));
    } else if (k < 6 && !held.empty()) {
      // the same value, or one well within the tolerance, is the same entry
      const auto& h = r.pick(held);
      const auto y = dd.cn.lookup(h.v);
      c.check(eqw(y, h.x), "number-duplicated", cat("value ", h.v, " has two entries"));
      c.check(std::abs(dd::ComplexValue(y).r - h.v) <= eps, "number-changed", cat(h.v));
    } else {
      const double base = r.pick(centres);
      const double step = r.chance(0.5) ? 4 * eps : 1e-7;
      const double v = base + (static_cast<double>(r.below(9)) - 4) * step * (r.chance(0.7) ? 1. : r.unit());
      if (v <= 1e-6) {
        continue;
      }
      log += cat(v, " ");
      const auto x = dd.cn.lookup(r.chance(0.2) ? -v : v);
      const double got = std::abs(dd::ComplexValue(x).r);
      c.check(std::abs(got - v) <= eps, "number-lookup", cat(v, " gives ", got));
      const auto pos = dd.cn.lookup(got);
      const auto neg = dd.cn.lookup(-got);
      c.check(dd::ComplexValue(neg).r == -dd::ComplexValue(pos).r && eqw(dd::ComplexNumbers::neg(pos), neg), "number-sign");
      dd.cn.incRef(pos);
      held.push_back({got, pos});
    }
  }
  for (const auto& h : held) {
    c.check(eqw(dd.cn.lookup(h.v), h.x), "number-duplicated", cat("value ", h.v, " has two entries"));
    c.check(dd::ComplexValue(h.x).r == h.v, "number-changed", cat(h.v));
  }
  for (const auto& h : held) {
    dd.cn.decRef(h.x);
  }
  dd.garbageCollect(true);
  c.check(dd.cn.realCount() <= 1, "numbers-not-released", cat(dd.cn.realCount()));
  announce(c, log);
}
// enough work for the automatic collections to run
void automatic(Ctx& c) {
  auto& r = c.rng;
  GenCfg g;
  g.n = static_cast<unsigned>(r.range(8, 10));
  g.nops = c.thorough ? 400 : 220;
  g.gates = {qc::RX, qc::RY, qc::U, qc::P, qc::RZZ, qc::X, qc::H};
  g.compound = 0;
  dd::Package dd(g.n, randConfig(r));
  auto circ = genCirc(r, g);
  announce(c, cat(g.n, " qubits, ", g.nops, " operations"));
  const auto other = dd.makeGHZState(g.n);
  const auto q = build(circ, r);
  const auto res = dd::simulate(q, dd.makeZeroState(g.n), dd);
  c.check(dist(toVec(res), runUnitary(circ, basis(g.n, 0))) < 1e-6, "simulation-with-collections");
  Vec ghz(std::size_t{1} << g.n);
  ghz.front() = ghz.back() = std::sqrt(0.5);
  c.check(dist(toVec(other), ghz) < 1e-9, "bystander-changed");
  c.count("automatic-collections", dd.cUniqueTable.getStats().gcRuns + dd.vUniqueTable.getStats(0).gcRuns);
  dd.decRef(res);
  dd.decRef(other);
  dd.garbageCollect(true);
  c.check(dd.vUniqueTable.getNumEntries() == 0, "vector-nodes-not-released", cat(dd.vUniqueTable.getNumEntries()));
  c.check(dd.mUniqueTable.getNumEntries() == 0, "matrix-nodes-not-released", cat(dd.mUniqueTable.getNumEntries()));
  c.check(dd.cn.realCount() <= 1, "numbers-not-released", cat(dd.cn.realCount()));
  c.fingerprint = str(circ);
}
// resets and resizes: a package is as good as new
void resets(Ctx& c) {
  auto& r = c.rng;
  auto n = static_cast<unsigned>(r.range(1, 4));
  dd::Package dd(n, randConfig(r));
  std::string log;
  for (int round = 0; round < 4; ++round) {
    GenCfg g;
    g.n = n;
    g.nops = r.range(1, 15);
    auto circ = genCirc(r, g);
    const auto q = build(circ, r);
    log += str(circ) + " | ";
    announce(c, log);
    const auto f = dd::buildFunctionality(q, dd);
    c.check(dist(toMat(f, n), unitaryOf(circ)) < 1e-7, "functionality-after-reset");
    const auto s = dd::simulate(q, dd.makeZeroState(n), dd);
    c.check(dist(toVec(s), runUnitary(circ, basis(n, 0))) < 1e-7, "simulation-after-reset");
    switch (r.below(3)) {
    case 0:
      dd.reset();
      c.count("resets");
      break;
    case 1: { // growing keeps what is there
      n = std::min(n + static_cast<unsigned>(r.below(3)), 6U);
      dd.resize(n);
      c.check(dd.qubits() == n, "resize");
      c.check(dist(toMat(f, g.n), unitaryOf(circ)) < 1e-7, "functionality-after-resize");
      c.count("resizes");
      dd.decRef(f);
      dd.decRef(s);
      break;
    }
    default:
      dd.decRef(f);
      dd.decRef(s);
      dd.garbageCollect(true);
      c.check(dd.vUniqueTable.getNumEntries() == 0 && dd.mUniqueTable.getNumEntries() == 0, "nodes-left-after-releasing-all",
              cat(round, ": ", dd.vUniqueTable.getNumEntries(), " ", dd.mUniqueTable.getNumEntries()));
      c.check(dd.cn.realCount() <= 1, "numbers-not-released", cat(dd.cn.realCount()));
    }
  }
}
} // namespace
int main(int argc, char** argv) {
  return runMain(argc, argv, "P04",
                 {{"collections", 10000, 120000, collections},
                  {"paths", 10000, 60000, paths},
                  {"numbers", 8000, 60000, numbers},
                  {"automatic", 24, 160, automatic},
                  {"resets", 6000, 40000, resets}});
}
