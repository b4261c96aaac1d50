// P12: every optimisation pass preserves what the circuit computes, establishes its promised form and refuses what it
// does not support. Oracle: dense reference execution (branches over measurement outcomes) before and after the pass.
#include "circuit_optimizer/CircuitOptimizer.hpp"
#include "common/ddutil.hpp"
#include "common/gen.hpp"
using namespace vf;
using CO = qc::CircuitOptimizer;
namespace {
constexpr double TOL = 1e-8;
constexpr double PTOL = 1e-8;

void each(const qc::QuantumComputation& q, const std::function<void(const Op&, int)>& f) {
  auto rec = [&](const Op& o, int depth, auto&& self) -> void {
    f(o, depth);
    for (const auto& b : o.body) {
      self(b, depth + 1, self);
    }
  };
  for (const auto& op : q) {
    rec(lift(*op), 0, rec);
  }
}
std::set<unsigned> used(const Op& o) {
  std::set<unsigned> s(o.t.begin(), o.t.end());
  for (const auto& x : o.c) {
    s.insert(x.q);
  }
  for (const auto& b : o.body) {
    const auto u = used(b);
    s.insert(u.begin(), u.end());
  }
  return s;
}
std::string permStr(const qc::Permutation& p) {
  std::string s;
  for (const auto& [k, v] : p) {
    s += cat(k, "->", v, " ");
  }
  return s;
}
// circuits rich in what the passes look for
Op genPatternOp(Rng& r, const GenCfg& g, const std::vector<Op>& prev) {
  Op o;
  o.k = Op::Gate;
  const double x = r.unit();
  if (!prev.empty() && x < 0.2) { // repeat, invert or turn around an earlier operation
    for (int tries = 0; tries < 5; ++tries) {
      o = prev[prev.size() - 1 - r.below(std::min<std::size_t>(prev.size(), 3))];
      if (o.k == Op::Gate) {
        if (o.t.size() == 1 && o.c.size() == 1 && r.chance(0.5)) {
          std::swap(o.t[0], o.c[0].q);
        } else if (r.chance(0.4)) {
          auto op = toOperation(o);
          op->invert();
          o = lift(*op);
        }
        return o;
      }
    }
    return o;
  }
  if (g.n >= 2 && x < 0.42) {
    const auto q = pickQubits(r, g.n, 2);
    o.type = r.chance(0.75) ? qc::X : qc::Z;
    o.t = {q[0]};
    o.c = {{q[1], !(g.neg && r.chance(0.1))}};
    return o;
  }
  if (g.n >= 2 && x < 0.54) {
    const auto q = pickQubits(r, g.n, 2);
    o.type = qc::SWAP;
    o.t = q;
    if (g.n >= 3 && r.chance(0.12)) {
      unsigned k = 0;
      while (k == q[0] || k == q[1]) {
        ++k;
      }
      o.c = {{k, r.chance(0.7)}};
    }
    return o;
  }
  if (x < 0.75) {
    static const std::vector<qc::OpType> one = {qc::I, qc::X, qc::Y,  qc::Z,  qc::H,  qc::S, qc::Sdg,
                                                qc::T, qc::Tdg, qc::SX, qc::SXdg, qc::RZ, qc::P};
    o.type = r.pick(one);
    o.t = pickQubits(r, g.n, 1);
    for (int i = 0; i < gateInfo(o.type).params; ++i) {
      o.p.push_back(randAngle(r));
    }
    return o;
  }
  return genOp(r, g);
}
Circ genPattern(Rng& r, const GenCfg& g) {
  Circ c;
  c.n = g.n;
  c.nc = g.nc;
  for (std::size_t i = 0; i < g.nops; ++i) {
    if (r.unit() < g.compound) {
      Op k;
      k.k = Op::Compound;
      k.type = qc::Compound;
      GenCfg h = g;
      h.compound = 0;
      const bool single = r.chance(0.3); // everything on one qubit
      const auto q = static_cast<unsigned>(r.below(g.n));
      const auto len = r.range(1, 4);
      for (std::size_t j = 0; j < len; ++j) {
        auto o = genPatternOp(r, h, k.body);
        if (single && (used(o).size() > 1 || o.k == Op::If || (o.k == Op::Gate && gateInfo(o.type).targets > 1))) {
          continue;
        }
        if (single) {
          remap(o, [&](unsigned) { return q; });
        }
        if (o.k == Op::Compound && r.chance(0.6)) {
          continue;
        }
        k.body.push_back(o);
      }
      if (k.body.size() > 0 && r.chance(0.15)) {
        Op outer = k;
        outer.body = {k, genPatternOp(r, h, {})};
        k = outer;
      }
      if (!k.body.empty()) {
        c.ops.push_back(k);
      }
      continue;
    }
    c.ops.push_back(genPatternOp(r, g, c.ops));
  }
  if (r.chance(0.3)) {
    c.gphase = randAngle(r);
  }
  return c;
}
Circ widened(Circ c, unsigned n) {
  c.n = n;
  return c;
}

struct Pass {
  std::string name;
  std::function<void(qc::QuantumComputation&)> run;
  std::function<void(Ctx&, const qc::QuantumComputation&)> form;
  bool dynamic = true;
};
bool isUncontrolledSwap(const Op& o) { return o.k == Op::Gate && o.type == qc::SWAP && o.c.empty(); }
// SWAPs below conditions are no candidates for replacement
void noSwaps(Ctx& c, const qc::QuantumComputation& q, int maxDepth) {
  auto rec = [&](const Op& o, int d, auto&& self) -> void {
    if (d <= maxDepth) {
      c.check(!isUncontrolledSwap(o), "form:swap-left", str(o));
    }
    if (o.k == Op::Compound) {
      for (const auto& b : o.body) {
        self(b, d + 1, self);
      }
    }
  };
  for (const auto& op : q) {
    rec(lift(*op), 0, rec);
  }
}
const std::vector<Pass>& passes() {
  static const std::vector<Pass> p = {
      {"swapReconstruction", [](auto& q) { CO::swapReconstruction(q); }, nullptr},
      {"singleQubitGateFusion", [](auto& q) { CO::singleQubitGateFusion(q); }, nullptr},
      {"removeIdentities", [](auto& q) { CO::removeIdentities(q); },
       [](Ctx& c, const auto& q) {
         each(q, [&](const Op& o, int d) {
           if (d == 0) {
             c.check(o.k != Op::Gate || o.type != qc::I, "form:identity-left", str(o));
           }
         });
       }},
      {"cancelCNOTs", [](auto& q) { CO::cancelCNOTs(q); }, nullptr},
      {"replaceMCXWithMCZ", [](auto& q) { CO::replaceMCXWithMCZ(q); },
       [](Ctx& c, const auto& q) {
         auto rec = [&](const Op& o, auto&& self) -> void {
           c.check(o.k != Op::Gate || o.type != qc::X || o.c.empty(), "form:controlled-x-left", str(o));
           if (o.k == Op::Compound) {
             for (const auto& b : o.body) {
               self(b, self);
             }
           }
         };
         for (const auto& op : q) {
           rec(lift(*op), rec);
         }
       }},
      {"flattenOperations", [](auto& q) { CO::flattenOperations(q); },
       [](Ctx& c, const auto& q) {
         each(q, [&](const Op& o, int) { c.check(o.k != Op::Compound, "form:compound-left", str(o)); });
       }},
      {"decomposeSWAP", [](auto& q) { CO::decomposeSWAP(q, false); }, [](Ctx& c, const auto& q) { noSwaps(c, q, 1); }},
      {"decomposeSWAP-directed", [](auto& q) { CO::decomposeSWAP(q, true); },
       [](Ctx& c, const auto& q) { noSwaps(c, q, 1); }},
  };
  return p;
}

GenCfg config(Ctx& c, bool dynamic) {
  auto& r = c.rng;
  GenCfg g;
  g.n = static_cast<unsigned>(r.range(1, dynamic ? 3 : 4));
  g.nops = r.range(1, dynamic ? 12 : 22);
  g.compound = r.chance(0.5) ? 0.12 : 0;
  g.maxCtl = 2;
  if (dynamic) {
    g.nc = r.range(1, 3);
    g.cregs = {{0, g.nc}};
    if (g.nc > 1) {
      g.cregs.push_back({g.nc - 1, 1});
    }
    g.measure = 0.25;
    g.reset = 0.1;
    g.cond = 0.3;
  }
  return g;
}
double differs(const Circ& a, const Circ& b, Rng& r, bool dynamic) {
  if (!dynamic) {
    return dist(unitaryOf(a), unitaryOf(b));
  }
  double d = 0;
  for (int i = 0; i < 2; ++i) {
    const auto in = i == 0 ? basis(a.n, 0) : randState(r, a.n);
    d = std::max(d, dist(ensemble(runBranches(a, in)), ensemble(runBranches(b, in))));
  }
  return d;
}

double outcomesDiffer(const std::map<std::vector<bool>, double>& x, const std::map<std::vector<bool>, double>& y) {
  double d = 0;
  for (const auto& [k, v] : x) {
    const auto it = y.find(k);
    d = std::max(d, std::abs(v - (it == y.end() ? 0 : it->second)));
  }
  for (const auto& [k, v] : y) {
    if (x.count(k) == 0) {
      d = std::max(d, v);
    }
  }
  return d;
}
double outcomesDiffer(const Circ& a, const Circ& b, Rng& r) {
  double d = 0;
  for (int i = 0; i < 2; ++i) {
    const auto in = i == 0 ? basis(a.n, 0) : randState(r, a.n);
    d = std::max(d, outcomesDiffer(outcomeDistribution(runBranches(a, in)), outcomeDistribution(runBranches(b, in))));
  }
  return d;
}

void preserve(Ctx& c, bool dynamic) {
  auto& r = c.rng;
  const auto g = config(c, dynamic);
  const auto circ = genPattern(r, g);
  auto q = vf::build(circ, r);
  const auto before = lift(q);
  std::string names;
  auto cur = before;
  const auto k = r.chance(0.6) ? 1U : r.range(2, 4);
  for (std::size_t i = 0; i < k; ++i) {
    const auto& p = r.pick(passes());
    names += (i ? "," : "") + p.name;
    announce(c, names + ": " + str(before));
    p.run(q);
    const auto after = lift(q);
    if (str(after) != str(cur)) {
      c.count("changed by " + p.name);
    }
    const auto d = differs(cur, after, r, dynamic);
    if (!c.check(d < TOL, cat("changed-computation:", p.name), cat("deviation ", d, ", result ", str(after)))) {
      return;
    }
    c.check(after.n == before.n && after.nc == before.nc, cat("changed-registers:", p.name));
    if (p.form) {
      p.form(c, q);
    }
    cur = after;
  }
}
void unitarySuite(Ctx& c) { preserve(c, false); }
void dynamicSuite(Ctx& c) { preserve(c, true); }

// -------------------------------------------------------------- removal of operations, DAG
void removal(Ctx& c) {
  auto& r = c.rng;
  auto g = config(c, r.chance(0.5));
  const auto circ = genPattern(r, g);
  auto q = vf::build(circ, r);
  const auto before = lift(q);
  std::unordered_set<qc::OpType> types;
  std::string d;
  const auto k = r.range(1, 3);
  for (std::size_t i = 0; i < k; ++i) {
    std::vector<qc::OpType> present;
    each(q, [&](const Op& o, int) {
      if (o.k != Op::If && o.k != Op::Compound) {
        present.push_back(o.type);
      }
    });
    types.insert(!present.empty() && r.chance(0.8) ? r.pick(present) : r.pick(allGates()).t);
  }
  for (const auto t : types) {
    d += qc::toString(t) + " ";
  }
  const auto size = r.chance(0.5) ? 0 : r.range(1, 3);
  announce(c, cat("remove ", d, "of size ", size, ": ", str(before)));
  // the DAG lists each qubit's operations in order
  {
    const auto dag = CO::constructDAG(q);
    std::vector<std::vector<const qc::Operation*>> want(dag.size());
    for (const auto& op : q) {
      for (const auto u : used(lift(*op))) {
        want.at(u).push_back(op.get());
      }
    }
    bool ok = true;
    for (std::size_t i = 0; i < dag.size(); ++i) {
      ok = ok && dag[i].size() == want[i].size();
      for (std::size_t j = 0; ok && j < want[i].size(); ++j) {
        ok = dag[i][j]->get() == want[i][j];
      }
    }
    c.check(ok, "dag");
  }
  CO::removeOperation(q, types, size);
  auto hit = [&](const Op& o) {
    return o.k != Op::If && o.k != Op::Compound && types.count(o.type) != 0 && (size == 0 || o.t.size() + o.c.size() == size);
  };
  // levels below the first are left alone
  std::vector<std::string> want;
  std::vector<std::string> got;
  auto flat = [](const Op& o, std::vector<std::string>& out, auto&& self) -> void {
    if (o.k == Op::Compound) {
      for (const auto& b : o.body) {
        self(b, out, self);
      }
    } else {
      out.push_back(str(o));
    }
  };
  std::vector<Op> deep; // matches in nested compounds may or may not be removed
  for (const auto& o : before.ops) {
    if (o.k == Op::Compound) {
      for (const auto& b : o.body) {
        if (b.k == Op::Compound) {
          deep.push_back(b);
        }
      }
    }
  }
  if (!deep.empty()) {
    c.count("nested");
  }
  for (const auto& o : before.ops) {
    if (hit(o)) {
      continue;
    }
    if (o.k == Op::Compound) {
      for (const auto& b : o.body) {
        if (!hit(b)) {
          flat(b, want, flat);
        }
      }
    } else {
      want.push_back(str(o));
    }
  }
  for (const auto& o : lift(q).ops) {
    flat(o, got, flat);
    c.check(o.k != Op::Compound || o.body.size() > 1 || before.ops.size() == 0 ||
                std::any_of(before.ops.begin(), before.ops.end(), [&](const Op& b) { return str(b) == str(o) || b.k == Op::Compound; }),
            "removal:degenerate-compound");
  }
  if (deep.empty()) {
    c.check(got == want, "removal:operations");
  }
}

// -------------------------------------------------------------- diagonal gates before measurements
void diagonal(Ctx& c) {
  auto& r = c.rng;
  GenCfg g;
  g.n = static_cast<unsigned>(r.range(1, 4));
  g.nc = g.n + r.below(2);
  g.nops = r.range(1, 10);
  g.gates = {qc::Z, qc::S, qc::T, qc::Tdg, qc::RZ, qc::P, qc::RZZ, qc::X, qc::H, qc::I, qc::SWAP};
  g.compound = r.chance(0.4) ? 0.2 : 0;
  g.barrier = 0.08;
  g.cregs = {{0, g.nc}};
  if (r.chance(0.4)) {
    g.measure = 0.1;
    g.cond = 0.1;
    g.reset = 0.05;
  }
  auto circ = genCirc(r, g);
  for (auto& o : circ.ops) { // multi-controlled diagonals
    if (o.k == Op::Gate && o.c.empty() && r.chance(0.1) && g.n >= 2) {
      o = genGate(r, g);
    }
  }
  const auto ms = pickQubits(r, g.n, r.range(r.chance(0.8) ? g.n : 0, g.n));
  const auto bs = r.perm(g.nc);
  if (r.chance(0.2) && !ms.empty()) {
    Op m;
    m.k = Op::Measure;
    m.type = qc::Measure;
    m.t = ms;
    m.bits.assign(bs.begin(), bs.begin() + static_cast<long>(ms.size()));
    circ.ops.push_back(m);
  } else {
    for (std::size_t i = 0; i < ms.size(); ++i) {
      Op m;
      m.k = Op::Measure;
      m.type = qc::Measure;
      m.t = {ms[i]};
      m.bits = {bs[i]};
      circ.ops.push_back(m);
      if (r.chance(0.15)) {
        circ.ops.push_back(genGate(r, g));
      }
    }
  }
  auto q = vf::build(circ, r);
  const auto before = lift(q);
  announce(c, str(before));
  CO::removeDiagonalGatesBeforeMeasure(q);
  const auto after = lift(q);
  const auto d = differs(before, after, r, true);
  c.check(d < TOL, "changed-computation:removeDiagonalGatesBeforeMeasure", cat("deviation ", d, ", result ", str(after)));
  if (str(after) != str(before)) {
    c.count("changed by removeDiagonalGatesBeforeMeasure");
  }
  // in circuits of single-qubit operations, no diagonal gate is left directly before a final measurement
  std::vector<std::size_t> last(g.n, before.ops.size());
  for (std::size_t i = 0; i < before.ops.size(); ++i) {
    const auto u = used(before.ops[i]);
    if (before.ops[i].k != Op::Measure && (u.size() > 1 || before.ops[i].k == Op::Compound)) {
      return;
    }
    for (const auto x : u) {
      last[x] = i;
    }
  }
  c.count("form checked");
  std::vector<bool> done(g.n, false);
  for (unsigned x = 0; x < g.n; ++x) {
    done[x] = last[x] == before.ops.size() || before.ops[last[x]].k != Op::Measure;
  }
  std::vector<bool> first(g.n, true);
  for (std::size_t i = after.ops.size(); i > 0; --i) {
    const auto& o = after.ops[i - 1];
    for (const auto x : used(o)) {
      if (!done[x] && !first[x]) {
        static const std::set<qc::OpType> diag{qc::I, qc::Z, qc::S, qc::Sdg, qc::T, qc::Tdg, qc::RZ, qc::P};
        c.check(o.k != Op::Gate || diag.count(o.type) == 0, "form:diagonal-gate-left", str(after));
        done[x] = true;
      }
      first[x] = false;
    }
  }
}

// -------------------------------------------------------------- final measurements
void finalMeasurements(Ctx& c) {
  auto& r = c.rng;
  GenCfg g;
  g.n = static_cast<unsigned>(r.range(1, 4));
  g.nc = r.range(1, 4);
  g.nops = r.range(0, 8);
  g.compound = 0;
  g.barrier = 0.15;
  g.measure = 0.35;
  g.cond = 0.12;
  g.reset = 0.03;
  g.cregs = {{0, g.nc}};
  auto circ = genCirc(r, g);
  const auto tail = r.below(6);
  for (std::size_t i = 0; i < tail; ++i) {
    GenCfg h = g;
    h.measure = 0.75;
    h.cond = 0;
    h.gphase = 0;
    h.barrier = 0.8;
    circ.ops.push_back(genOp(r, h));
  }
  const bool comp = r.chance(0.25);
  if (comp && circ.ops.size() > 1) { // group a stretch of operations
    const auto a = r.below(circ.ops.size());
    const auto b = std::min(circ.ops.size(), a + r.range(1, 4));
    Op k;
    k.k = Op::Compound;
    k.type = qc::Compound;
    k.body.assign(circ.ops.begin() + static_cast<long>(a), circ.ops.begin() + static_cast<long>(b));
    circ.ops.erase(circ.ops.begin() + static_cast<long>(a), circ.ops.begin() + static_cast<long>(b));
    circ.ops.insert(circ.ops.begin() + static_cast<long>(a), k);
  }
  auto q = vf::build(circ, r);
  const auto before = lift(q);
  announce(c, str(before));
  CO::removeFinalMeasurements(q);
  const auto after = lift(q);
  auto flatten = [](const Circ& x) {
    std::vector<Op> out;
    auto rec = [&](const Op& o, auto&& self) -> void {
      if (o.k == Op::Compound) {
        for (const auto& b : o.body) {
          self(b, self);
        }
      } else {
        out.push_back(o);
      }
    };
    for (const auto& o : x.ops) {
      rec(o, rec);
    }
    return out;
  };
  const auto ob = flatten(before);
  const auto oa = flatten(after);
  // which measurements are final: nothing but final measurements and barriers follows on their qubits, and no
  // condition reads their bits later
  std::vector<bool> closed(g.n, false);
  std::vector<bool> read(g.nc, false);
  std::vector<bool> isFinal(ob.size(), false);
  for (std::size_t i = ob.size(); i > 0; --i) {
    const auto& o = ob[i - 1];
    bool f = o.k == Op::Measure || o.k == Op::Barrier;
    for (const auto t : o.t) {
      f = f && !closed[t];
    }
    for (const auto b : o.bits) {
      f = f && !read[b];
    }
    isFinal[i - 1] = f;
    if (!f) {
      for (const auto u : used(o)) {
        closed[u] = true;
      }
    }
    for (const auto b : o.condBits) {
      read[b] = true;
    }
  }
  std::vector<std::string> want;
  std::vector<std::string> upper; // everything that is no barrier
  std::vector<std::string> got;
  for (std::size_t i = 0; i < ob.size(); ++i) {
    if (ob[i].k == Op::Barrier || ob[i].type == qc::I) {
      continue;
    }
    if (!isFinal[i]) {
      want.push_back(str(ob[i]));
    }
  }
  for (const auto& o : oa) {
    if (o.k != Op::Barrier && o.type != qc::I) {
      got.push_back(str(o));
    }
  }
  if (str(after) != str(before)) {
    c.count("changed by removeFinalMeasurements");
  }
  if (!comp) {
    c.check(got == want, "final-measurements", str(after));
    return;
  }
  // with compound operations, final measurements may stay but nothing else may go
  std::size_t j = 0;
  bool ok = true;
  for (std::size_t i = 0; i < ob.size(); ++i) {
    if (ob[i].k == Op::Barrier || ob[i].type == qc::I) {
      continue;
    }
    if (j < got.size() && got[j] == str(ob[i])) {
      ++j;
    } else if (!isFinal[i]) {
      ok = false;
      break;
    }
  }
  c.check(ok && j == got.size(), "final-measurements-compound", str(after));
}

// -------------------------------------------------------------- resets
void resets(Ctx& c) {
  auto& r = c.rng;
  GenCfg g;
  g.n = static_cast<unsigned>(r.range(1, 3));
  g.nc = r.range(1, 3);
  g.nops = r.range(1, 10);
  g.measure = 0.25;
  g.reset = 0.15;
  g.cond = 0.15;
  g.maxCtl = 2;
  g.cregs = {{0, g.nc}};
  auto circ = genCirc(r, g);
  if (r.chance(0.35) && circ.ops.size() > 1) {
    const auto a = r.below(circ.ops.size());
    const auto b = std::min(circ.ops.size(), a + r.range(1, 4));
    Op k;
    k.k = Op::Compound;
    k.type = qc::Compound;
    k.body.assign(circ.ops.begin() + static_cast<long>(a), circ.ops.begin() + static_cast<long>(b));
    circ.ops.erase(circ.ops.begin() + static_cast<long>(a), circ.ops.begin() + static_cast<long>(b));
    circ.ops.insert(circ.ops.begin() + static_cast<long>(a), k);
  }
  std::size_t nr = 0;
  bool nested = false;
  auto rec = [&](const Op& o, int d, auto&& self) -> void {
    if (o.k == Op::Reset) {
      nr += o.t.size();
      nested = nested || d > 1;
    }
    for (const auto& b : o.body) {
      self(b, d + 1, self);
    }
  };
  for (const auto& o : circ.ops) {
    rec(o, 0, rec);
  }
  if (nr > 4 || nested) {
    throw Skip{};
  }
  auto q = vf::build(circ, r);
  const auto before = lift(q);
  announce(c, str(before));
  CO::eliminateResets(q);
  const auto after = lift(q);
  c.count("resets", nr);
  c.check(after.n == before.n + nr && after.nc == before.nc, "resets:qubits", cat(after.n));
  each(q, [&](const Op& o, int) { c.check(o.k != Op::Reset, "form:reset-left", str(after)); });
  const auto in = r.chance(0.5) ? basis(g.n, 0) : randState(r, g.n);
  Vec wide(std::size_t{1} << after.n);
  std::copy(in.begin(), in.end(), wide.begin());
  const auto x = outcomeDistribution(runBranches(before, in));
  const auto y = outcomeDistribution(runBranches(after, wide));
  const auto d = outcomesDiffer(x, y);
  c.check(d < PTOL, "changed-outcomes:eliminateResets", cat("deviation ", d, ", result ", str(after)));
}

// -------------------------------------------------------------- deferred measurements
void deferred(Ctx& c) {
  auto& r = c.rng;
  GenCfg g;
  g.n = static_cast<unsigned>(r.range(1, 4));
  g.nc = r.range(1, 4);
  g.compound = 0.05;
  g.maxCtl = 2;
  const bool wild = r.chance(0.15); // with unsupported features
  Circ circ;
  circ.n = g.n;
  circ.nc = g.nc;
  for (std::size_t i = 0; i < g.nc; ++i) {
    g.cregs.push_back({i, 1});
  }
  std::set<unsigned> measured;
  const auto len = r.range(1, 10);
  bool unsupported = false;
  bool changes = false; // a measured qubit is changed later on
  bool midMeasure = false;
  GenCfg diag = g;
  diag.gates = {qc::Z, qc::S, qc::T, qc::RZ, qc::P, qc::RZZ, qc::I};
  for (std::size_t i = 0; i < len; ++i) {
    Op o;
    const double x = r.unit();
    if (x < 0.3) {
      o.k = Op::Measure;
      o.type = qc::Measure;
      o.t = pickQubits(r, g.n, 1);
      o.bits = {r.below(g.nc)};
      if (wild && r.chance(0.1) && g.n > 1 && g.nc > 1) {
        o.t = pickQubits(r, g.n, 2);
        o.bits = {0, 1};
        unsupported = true;
      }
      measured.insert(o.t.begin(), o.t.end());
      midMeasure = midMeasure || i + 1 < len;
    } else if (x < 0.6) {
      GenCfg h = g;
      h.measure = h.reset = 0;
      h.cond = 1;
      h.compound = h.gphase = h.barrier = 0;
      if (wild && g.nc > 1 && r.chance(0.1)) {
        h.cregs = {{0, 2}};
        unsupported = true;
      }
      o = genOp(r, h);
      bool bad = false;
      for (const auto t : o.body[0].t) {
        bad = bad || measured.count(t) != 0;
      }
      if (bad) {
        if (!wild) {
          continue;
        }
        unsupported = true;
        changes = true;
      }
    } else if (wild && x < 0.64) {
      o.k = Op::Reset;
      o.type = qc::Reset;
      o.t = pickQubits(r, g.n, 1);
      unsupported = true;
    } else {
      for (int t = 0; t < 10; ++t) {
        o = r.chance(0.3) ? genGate(r, diag) : genOp(r, g);
        // a measured qubit may be used as control and by diagonal gates
        bool ok = true;
        auto rec = [&](const Op& b, auto&& self) -> void {
          static const std::set<qc::OpType> d{qc::Z, qc::S, qc::T, qc::RZ, qc::P, qc::RZZ, qc::I, qc::Sdg, qc::Tdg, qc::Barrier};
          for (const auto q : b.t) {
            ok = ok && (measured.count(q) == 0 || d.count(b.type) != 0);
          }
          for (const auto& y : b.body) {
            self(y, self);
          }
        };
        rec(o, rec);
        if (ok) {
          break;
        }
        o = Op{};
        o.k = Op::GPhase;
        o.type = qc::GPhase;
        o.p = {0.5};
      }
    }
    circ.ops.push_back(o);
  }
  auto q = vf::build(circ, r);
  const auto before = lift(q);
  announce(c, str(before));
  try {
    CO::deferMeasurements(q);
  } catch (const std::runtime_error& e) {
    c.count("refused");
    c.check(unsupported, "refused:deferMeasurements", e.what());
    return;
  }
  if (unsupported) {
    c.count("accepted although wild");
    // unsupported features in irrelevant places may be accepted, but then the result has to be right
    if (changes) {
      throw Skip{};
    }
  }
  const auto after = lift(q);
  // overwritten results are never observed, so their measurements may be dropped: compare outcomes
  const auto d = outcomesDiffer(before, after, r);
  c.check(d < PTOL, "changed-outcomes:deferMeasurements", cat("deviation ", d, ", result ", str(after)));
  bool end = false;
  for (const auto& o : after.ops) {
    if (o.k == Op::Measure) {
      end = true;
    } else {
      c.check(!end || unsupported, "form:measurement-not-last", str(after));
    }
  }
  if (midMeasure) {
    c.count("deferred");
  }
}

// -------------------------------------------------------------- blocks
void blocks(Ctx& c) {
  auto& r = c.rng;
  const bool dynamic = r.chance(0.25);
  GenCfg g = config(c, false);
  g.n = static_cast<unsigned>(r.range(1, 5));
  g.nops = r.range(2, 16);
  g.maxCtl = 3;
  g.ctlProb = 0.35;
  auto circ = r.chance(0.5) ? genPattern(r, g) : genCirc(r, g);
  if (dynamic) {
    circ.nc = g.n;
    const auto k = r.range(1, 3);
    for (std::size_t i = 0; i < k; ++i) {
      Op o;
      o.k = r.chance(0.3) ? Op::Reset : Op::Measure;
      o.type = o.k == Op::Reset ? qc::Reset : qc::Measure;
      const auto x = static_cast<unsigned>(r.below(g.n));
      o.t = {x};
      if (o.k == Op::Measure) {
        o.bits = {x};
        circ.ops.push_back(o);
      } else {
        circ.ops.insert(circ.ops.begin() + static_cast<long>(r.below(circ.ops.size() + 1)), o);
      }
    }
  }
  const auto size = r.range(1, 4);
  auto q = vf::build(circ, r);
  const auto before = lift(q);
  announce(c, cat("blocks of ", size, ": ", str(before)));
  std::size_t largest = 0;
  each(q, [&](const Op& o, int) { largest = std::max(largest, used(o).size()); });
  try {
    CO::collectBlocks(q, size);
  } catch (const std::runtime_error& e) {
    c.count("refused");
    bool reset = false;
    for (const auto& o : before.ops) {
      reset = reset || o.k == Op::Reset;
    }
    c.check(dynamic && reset, "refused:collectBlocks", e.what());
    return;
  }
  const auto after = lift(q);
  const auto d = differs(before, after, r, dynamic);
  c.check(d < TOL, "changed-computation:collectBlocks", cat("deviation ", d, ", result ", str(after)));
  std::set<std::string> orig;
  for (const auto& o : before.ops) {
    orig.insert(str(o));
  }
  for (const auto& o : after.ops) {
    if (o.k == Op::Compound && orig.count(str(o)) == 0) {
      c.check(used(o).size() <= std::max(size, largest), "form:block-too-large", str(o));
      c.count("blocks");
    }
  }
}

// -------------------------------------------------------------- permutations
Mat logical(const Circ& c, const qc::Permutation& init, const qc::Permutation& out) {
  const auto u = unitaryOf(c);
  const std::size_t d = u.n;
  std::vector<std::size_t> in(d);
  std::vector<std::size_t> ou(d);
  for (std::size_t pb = 0; pb < d; ++pb) {
    for (unsigned p = 0; p < c.n; ++p) {
      in[pb] |= ((pb >> p) & 1U) << init.at(p);
      ou[pb] |= ((pb >> p) & 1U) << out.at(p);
    }
  }
  Mat m(d);
  for (std::size_t i = 0; i < d; ++i) {
    for (std::size_t j = 0; j < d; ++j) {
      m.at(ou[i], in[j]) = u.at(i, j);
    }
  }
  return m;
}
void permutations(Ctx& c) {
  auto& r = c.rng;
  auto g = config(c, false);
  const auto circ = genPattern(r, g);
  auto q = vf::build(circ, r);
  const auto a = r.perm(g.n);
  const auto b = r.perm(g.n);
  for (unsigned i = 0; i < g.n; ++i) {
    q.initialLayout[i] = static_cast<qc::Qubit>(a[i]);
    q.outputPermutation[i] = static_cast<qc::Qubit>(b[i]);
  }
  if (r.chance(0.5)) { // elide
    const auto before = lift(q);
    announce(c, cat("elide ", permStr(q.initialLayout), "; ", permStr(q.outputPermutation), "; ", str(before)));
    const auto want = logical(before, q.initialLayout, q.outputPermutation);
    CO::elidePermutations(q);
    const auto after = lift(q);
    bool complete = q.initialLayout.size() == g.n && q.outputPermutation.size() == g.n;
    for (unsigned i = 0; i < g.n; ++i) {
      complete = complete && q.initialLayout.count(i) != 0 && q.outputPermutation.count(i) != 0;
    }
    if (!c.check(complete, "elide:layouts", cat(permStr(q.initialLayout), "; ", permStr(q.outputPermutation)))) {
      return;
    }
    const auto d = dist(want, logical(after, q.initialLayout, q.outputPermutation));
    c.check(d < TOL, "changed-computation:elidePermutations",
            cat("deviation ", d, ", ", permStr(q.initialLayout), "; ", permStr(q.outputPermutation), "; ", str(after)));
    noSwaps(c, q, 100);
    // conditions, measurements and resets follow the permutation as well
    return;
  }
  // backpropagate
  for (unsigned i = 0; i < g.n; ++i) {
    if (r.chance(0.3)) {
      q.outputPermutation.erase(i);
    }
  }
  const auto out = q.outputPermutation;
  const auto before = lift(q);
  announce(c, cat("backpropagate ", permStr(q.initialLayout), "; ", permStr(out), "; ", str(before)));
  CO::backpropagateOutputPermutation(q);
  c.check(str(lift(q)) == str(before), "backpropagate:changed-operations");
  c.check(q.outputPermutation == out, "backpropagate:changed-output");
  std::set<unsigned> vals;
  bool complete = q.initialLayout.size() == g.n;
  for (unsigned i = 0; i < g.n; ++i) {
    const auto it = q.initialLayout.find(i);
    complete = complete && it != q.initialLayout.end() && it->second < g.n;
    if (complete) {
      vals.insert(it->second);
    }
  }
  if (!c.check(complete && vals.size() == g.n, "backpropagate:no-bijection", permStr(q.initialLayout))) {
    return;
  }
  std::vector<unsigned> at(g.n);
  for (unsigned i = 0; i < g.n; ++i) {
    at[i] = q.initialLayout.at(i);
  }
  auto rec = [&](const Op& o, auto&& self) -> void {
    if (isUncontrolledSwap(o)) {
      std::swap(at[o.t[0]], at[o.t[1]]);
    }
    if (o.k == Op::Compound) {
      for (const auto& x : o.body) {
        self(x, self);
      }
    }
  };
  for (const auto& o : before.ops) {
    rec(o, rec);
  }
  for (const auto& [p, l] : out) {
    c.check(at[p] == l, "backpropagate:does-not-reach-output", permStr(q.initialLayout));
  }
}
// eliding permutations in circuits with measurements, resets and conditions
void elideDynamic(Ctx& c) {
  auto& r = c.rng;
  auto g = config(c, true);
  auto circ = genPattern(r, g);
  auto q = vf::build(circ, r);
  const auto a = r.perm(g.n);
  for (unsigned i = 0; i < g.n; ++i) {
    q.initialLayout[i] = static_cast<qc::Qubit>(a[i]);
  }
  const auto before = lift(q);
  announce(c, cat("elide ", permStr(q.initialLayout), "; ", str(before)));
  const auto in = randState(r, g.n); // logical
  auto phys = [&](const qc::Permutation& p) {
    Vec v(in.size());
    for (std::size_t pb = 0; pb < v.size(); ++pb) {
      std::size_t l = 0;
      for (unsigned i = 0; i < g.n; ++i) {
        l |= ((pb >> i) & 1U) << p.at(i);
      }
      v[pb] = in[l];
    }
    return v;
  };
  const auto x = outcomeDistribution(runBranches(before, phys(q.initialLayout)));
  CO::elidePermutations(q);
  const auto after = lift(q);
  if (!c.check(q.initialLayout.size() == g.n, "elide:layouts")) {
    return;
  }
  const auto y = outcomeDistribution(runBranches(after, phys(q.initialLayout)));
  const auto d = outcomesDiffer(x, y);
  c.check(d < PTOL, "changed-outcomes:elidePermutations", cat("deviation ", d, ", result ", str(after)));
}
// the qubit is changed between its measurement and the conditioned operation
void probeDeferred(Ctx& c) {
  announce(c, "defer: h 0; measure 0->0; h 0; if(c0) x 1; measure 1->1, from |0> with q0 rotated by ry(0.7)");
  qc::QuantumComputation q(2, 2);
  q.ry(0.7, 0);
  q.measure(0, 0);
  q.h(0);
  q.classicControlled(qc::X, 1, 0);
  q.measure(1, 1);
  Vec in(4);
  in[0] = 1;
  const auto x = outcomeDistribution(runBranches(lift(q), in));
  CO::deferMeasurements(q);
  const auto y = outcomeDistribution(runBranches(lift(q), in));
  c.check(outcomesDiffer(x, y) < PTOL, "deferred-behind-changing-gate", str(lift(q)));
}
} // namespace
int main(int argc, char** argv) {
  return runMain(argc, argv, "P12",
                 {{"unitary", 16000, 200000, unitarySuite},
                  {"dynamic", 12000, 150000, dynamicSuite},
                  {"removal", 8000, 80000, removal},
                  {"diagonal", 10000, 120000, diagonal},
                  {"final-measurements", 12000, 120000, finalMeasurements},
                  {"resets", 10000, 100000, resets},
                  {"deferred", 12000, 150000, deferred},
                  {"blocks", 10000, 120000, blocks},
                  {"permutations", 10000, 100000, permutations},
                  {"elide-dynamic", 6000, 60000, elideDynamic},
                  {"probe-deferred", 1, 1, probeDeferred, true}});
}
