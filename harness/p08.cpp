// P08: OpenQASM export followed by import preserves the circuit.
#include "common/gen.hpp"
#include "qasm3/Importer.hpp"

#include <iostream>
#include <sstream>
using namespace vf;
namespace {
constexpr double TOL = 1e-8;

struct Regs {
  std::vector<std::pair<std::string, unsigned>> q, c;
  std::vector<std::size_t> cstart;
};
Regs declare(Rng& r, qc::QuantumComputation& q, unsigned maxQ, bool classical) {
  static const std::vector<std::string> names = {"q", "r", "qreg0", "q_1", "Q", "data", "_a", "anc", "aux", "q10", "meas_q", "eve", "zz9", "ctrl_q"};
  static const std::vector<std::string> cnames = {"c", "m", "creg0", "c_1", "C", "out", "_b", "res", "c10", "bitreg", "flag", "k"};
  Regs g;
  auto pool = r.perm(names.size());
  unsigned n = 0;
  const auto kq = r.range(1, 3);
  bool ancillary = false; // ancillary registers have to come last
  for (std::size_t i = 0; i < kq && n < maxQ; ++i) {
    const auto s = static_cast<unsigned>(r.range(1, maxQ - n));
    g.q.emplace_back(names[pool[i]], s);
    n += s;
    ancillary = ancillary || (i > 0 && r.chance(0.2));
    if (ancillary) {
      q.addAncillaryRegister(s, names[pool[i]]);
    } else {
      q.addQubitRegister(s, names[pool[i]]);
    }
  }
  if (classical) {
    pool = r.perm(cnames.size());
    const auto kc = r.range(1, 3);
    std::size_t start = 0;
    for (std::size_t i = 0; i < kc; ++i) {
      const auto s = static_cast<unsigned>(r.range(1, 3));
      g.c.emplace_back(cnames[pool[i]], s);
      q.addClassicalRegister(s, cnames[pool[i]]);
      g.cstart.push_back(start);
      start += s;
    }
  }
  return g;
}
// a conditional body: a gate, possibly with several statements
Op genBody(Rng& r, const GenCfg& g) {
  if (r.chance(0.3)) {
    Op o;
    o.k = Op::Compound;
    o.type = qc::Compound;
    const auto k = r.range(1, 3);
    for (std::size_t i = 0; i < k; ++i) {
      o.body.push_back(genGate(r, g));
    }
    return o;
  }
  return genGate(r, g);
}
void appendTo(qc::QuantumComputation& q, const Op& o, const Regs& g, Rng& r) {
  if (o.k == Op::If && !o.condIsBit) {
    for (std::size_t i = 0; i < g.c.size(); ++i) {
      if (g.cstart[i] == o.condBits.at(0)) {
        const qc::ClassicalRegister reg(g.cstart[i], g.c[i].second, g.c[i].first);
        q.emplace_back<qc::ClassicControlledOperation>(toOperation(o.body.at(0)), reg, o.expected, o.cmp);
        return;
      }
    }
    throw std::logic_error("no such register");
  }
  append(q, o, r);
}
bool hasKind(const Op& o, Op::Kind k) {
  return o.k == k || std::any_of(o.body.begin(), o.body.end(), [&](const Op& b) { return hasKind(b, k); });
}
bool hasPeresNeg(const Op& o) {
  if (o.k == Op::Gate && (o.type == qc::Peres || o.type == qc::Peresdg) && std::any_of(o.c.begin(), o.c.end(), [](const Ctl& c) { return !c.pos; })) {
    return true;
  }
  return std::any_of(o.body.begin(), o.body.end(), hasPeresNeg);
}

std::string importText(const std::string& text, std::unique_ptr<qc::QuantumComputation>& out) {
  try {
    out = std::make_unique<qc::QuantumComputation>(qasm3::Importer::imports(text));
  } catch (const std::exception& e) {
    return e.what();
  }
  return "";
}
bool inRange(const Op& o, unsigned n, std::size_t nc) {
  for (const auto t : o.t) {
    if (t >= n) {
      return false;
    }
  }
  for (const auto& c : o.c) {
    if (c.q >= n) {
      return false;
    }
  }
  for (const auto b : o.bits) {
    if (b >= nc) {
      return false;
    }
  }
  for (const auto b : o.condBits) {
    if (b >= nc) {
      return false;
    }
  }
  return std::all_of(o.body.begin(), o.body.end(), [&](const Op& b) { return inRange(b, n, nc); });
}
void barriers(const Op& o, std::vector<std::set<unsigned>>& out) {
  if (o.k == Op::Barrier) {
    out.emplace_back(o.t.begin(), o.t.end());
  }
  for (const auto& b : o.body) {
    barriers(b, out);
  }
}

// compares what two circuits compute
void compareCircuits(Ctx& c, const Circ& a, const Circ& b, bool phase, const std::string& key) {
  auto& r = c.rng;
  const bool dynamic = std::any_of(a.ops.begin(), a.ops.end(), [](const Op& o) { return !isUnitary(o); }) ||
                       std::any_of(b.ops.begin(), b.ops.end(), [](const Op& o) { return !isUnitary(o); });
  if (!dynamic) {
    const auto x = unitaryOf(a);
    const auto y = unitaryOf(b);
    const double d = phase ? dist(x, y) : distPhase(x.a, y.a);
    c.check(d < TOL, key + ":unitary", cat("deviation ", d));
    return;
  }
  c.count("dynamic");
  for (int k = 0; k < 2; ++k) {
    Vec in(std::size_t{1} << a.n);
    double s = 0;
    for (auto& v : in) {
      v = C(r.uniform(-1, 1), r.uniform(-1, 1));
      s += std::norm(v);
    }
    for (auto& v : in) {
      v /= std::sqrt(s);
    }
    const auto x = runBranches(a, in);
    const auto y = runBranches(b, in);
    if (x.size() > 256 || y.size() > 256) {
      return;
    }
    const double d = dist(ensemble(x), ensemble(y));
    c.check(d < TOL, key + ":ensemble", cat("deviation ", d));
  }
}

void roundTrip(Ctx& c, bool dynamic, bool layouts, bool removed) {
  auto& r = c.rng;
  qc::QuantumComputation q;
  const auto regs = declare(r, q, static_cast<unsigned>(r.range(1, 5)), dynamic);
  const auto n = static_cast<unsigned>(q.getNqubits());
  GenCfg g;
  g.n = n;
  g.nc = q.getNcbits();
  g.nops = r.range(1, 10);
  g.compound = 0.1;
  g.barrier = 0.1;
  g.gphase = r.chance(0.3) ? 0.15 : 0;
  g.maxCtl = 4;
  if (dynamic) {
    g.measure = 0.2;
    g.reset = 0.1;
    g.cond = 0.25;
    for (std::size_t i = 0; i < regs.c.size(); ++i) {
      g.cregs.emplace_back(regs.cstart[i], regs.c[i].second);
    }
  }
  // only a part of the qubits is used if qubits are to be removed
  std::vector<unsigned> idle;
  GenCfg h = g;
  std::vector<unsigned> usedQubits;
  if (removed && n > 1) {
    const auto p = r.perm(n);
    const auto k = r.range(1, n - 1);
    for (std::size_t i = 0; i < n; ++i) {
      (i < k ? usedQubits : idle).push_back(static_cast<unsigned>(p[i]));
    }
    std::sort(usedQubits.begin(), usedQubits.end());
    h.n = static_cast<unsigned>(usedQubits.size());
  }
  Circ circ;
  circ.n = n;
  circ.nc = g.nc;
  std::size_t meas = 0;
  for (std::size_t i = 0; i < h.nops; ++i) {
    auto o = genOp(r, h);
    if (o.k == Op::If) {
      o.body[0] = genBody(r, h);
    }
    meas += o.k == Op::Measure || o.k == Op::Reset ? o.t.size() : 0;
    if (meas > 6 && (o.k == Op::Measure || o.k == Op::Reset)) {
      continue;
    }
    if (!usedQubits.empty()) {
      remap(o, [&](unsigned x) { return usedQubits[x]; });
    }
    circ.ops.push_back(std::move(o));
  }
  if (r.chance(0.3)) {
    circ.gphase = randAngle(r);
    q.gphase(circ.gphase);
  }
  for (const auto& o : circ.ops) {
    appendTo(q, o, regs, r);
  }
  if (layouts) {
    const auto p = r.perm(n);
    const auto s = r.perm(n);
    q.initialLayout.clear();
    q.outputPermutation.clear();
    for (unsigned i = 0; i < n; ++i) {
      q.initialLayout[i] = static_cast<qc::Qubit>(p[i]);
      q.outputPermutation[i] = static_cast<qc::Qubit>(s[i]);
    }
  }
  std::vector<unsigned> toIndex(n);
  unsigned m = n;
  if (!idle.empty()) {
    for (const auto i : idle) {
      q.removeQubit(q.initialLayout.at(i)); // takes the logical index
    }
    m = 0;
    for (unsigned i = 0; i < n; ++i) {
      if (std::find(idle.begin(), idle.end(), i) == idle.end()) {
        toIndex[i] = m++;
      }
    }
  } else {
    for (unsigned i = 0; i < n; ++i) {
      toIndex[i] = i;
    }
  }
  // what the circuit object says, on consecutive qubits
  Circ base;
  base.n = m;
  base.nc = circ.nc;
  base.gphase = q.getGlobalPhase();
  for (const auto& op : q) {
    base.ops.push_back(lift(*op));
    remap(base.ops.back(), [&](unsigned x) { return toIndex[x]; });
  }
  for (const auto qasm3 : {true, false}) {
    const std::string v = qasm3 ? "qasm3" : "qasm2";
    announce(c, cat(v, " ", str(circ), layouts ? " layouts" : "", idle.empty() ? "" : cat(" removed ", idle.size())));
    if (!qasm3) {
      // not expressible in OpenQASM 2: conditions on bits, other comparisons than equality
      bool skip = false;
      for (const auto& o : circ.ops) {
        skip = skip || (o.k == Op::If && (o.condIsBit || o.cmp != qc::Eq));
      }
      if (skip) {
        c.count("not-expressible-in-qasm2");
        continue;
      }
    }
    std::ostringstream sink;
    auto* old = std::cout.rdbuf(sink.rdbuf());
    const auto text = q.toQASM(qasm3);
    std::cout.rdbuf(old);
    if (c.verbose) {
      std::cerr << text;
    }
    std::unique_ptr<qc::QuantumComputation> back;
    const auto err = importText(text, back);
    if (!c.check(err.empty(), v + ":rejected", err + "\n" + text)) {
      continue;
    }
    c.count("round-trips:" + v);
    if (!c.check(back->getNqubits() == m && back->getNcbits() == q.getNcbits(), v + ":sizes", text)) {
      continue;
    }
    const auto got = lift(*back);
    bool ok = true;
    for (const auto& o : got.ops) {
      ok = ok && inRange(o, m, circ.nc);
    }
    if (!c.check(ok, v + ":operands-out-of-range", text)) {
      continue;
    }
    compareCircuits(c, base, got, qasm3, v);
    // registers
    if (idle.empty()) {
      for (const auto& [name, size] : regs.q) {
        const auto it = back->getQuantumRegisters().find(name);
        const auto& all = q.getQuantumRegisters();
        const auto ref = all.find(name);
        const auto start = ref != all.end() ? ref->second.getStartIndex() : q.getAncillaRegisters().at(name).getStartIndex();
        c.check(it != back->getQuantumRegisters().end() && it->second.getSize() == size && it->second.getStartIndex() == start,
                v + ":quantum-register", name);
      }
    }
    for (std::size_t i = 0; i < regs.c.size(); ++i) {
      const auto it = back->getClassicalRegisters().find(regs.c[i].first);
      c.check(it != back->getClassicalRegisters().end() && it->second.getSize() == regs.c[i].second && it->second.getStartIndex() == regs.cstart[i],
              v + ":classical-register", regs.c[i].first);
    }
    c.check(back->getClassicalRegisters().size() == regs.c.size(), v + ":classical-register-count");
    // barriers keep their qubits
    std::vector<std::set<unsigned>> ba;
    std::vector<std::set<unsigned>> bb;
    for (const auto& o : base.ops) {
      barriers(o, ba);
    }
    for (const auto& o : got.ops) {
      barriers(o, bb);
    }
    c.check(ba == bb, v + ":barriers", text);
    if (layouts && !dynamic && idle.empty()) {
      c.check(back->initialLayout == q.initialLayout, v + ":initial-layout", text.substr(0, 60));
      c.check(back->outputPermutation == q.outputPermutation, v + ":output-permutation", text.substr(0, 60));
    }
    if (!dynamic && !idle.empty()) {
      // the remaining qubits are numbered consecutively, in the same order
      const auto renumbered = [&](const qc::Permutation& p) {
        std::set<qc::Qubit> logical;
        for (const auto& [phys, log] : p) {
          logical.insert(log);
        }
        qc::Permutation e;
        for (const auto& [phys, log] : p) {
          e[toIndex[phys]] = static_cast<qc::Qubit>(std::distance(logical.begin(), logical.find(log)));
        }
        return e;
      };
      c.check(back->initialLayout == renumbered(q.initialLayout), v + ":initial-layout-removed", text.substr(0, 60));
      c.check(back->outputPermutation == renumbered(q.outputPermutation), v + ":output-permutation-removed", text.substr(0, 60));
      c.count("layouts-after-removal");
    }
    if (layouts && dynamic) {
      c.check(back->initialLayout.size() == m, v + ":initial-layout-size", text.substr(0, 60));
    }
    // writing the imported circuit again describes the same computation
    if (r.chance(0.3)) {
      old = std::cout.rdbuf(sink.rdbuf());
      const auto text2 = back->toQASM(qasm3);
      std::cout.rdbuf(old);
      std::unique_ptr<qc::QuantumComputation> again;
      const auto err2 = importText(text2, again);
      if (c.check(err2.empty(), v + ":rejected-again", err2 + "\n" + text2)) {
        compareCircuits(c, got, lift(*again), qasm3, v + "-again");
      }
    }
  }
  c.fingerprint = c.desc;
}
} // namespace
int main(int argc, char** argv) {
  return runMain(argc, argv, "P08",
                 {{"static", 6000, 120000, [](Ctx& c) { roundTrip(c, false, false, false); }},
                  {"dynamic", 6000, 120000, [](Ctx& c) { roundTrip(c, true, false, false); }},
                  {"layouts", 2000, 40000, [](Ctx& c) { roundTrip(c, c.rng.chance(0.3), true, false); }},
                  {"removed", 2000, 40000, [](Ctx& c) { roundTrip(c, c.rng.chance(0.5), c.rng.chance(0.3), true); }}});
}
