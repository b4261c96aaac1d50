// P09: importing an OpenQASM program yields the circuit it denotes.
// Programs are generated together with their meaning; the meaning is computed by an evaluator of its own.
#include "common/qasmgen.hpp"
#include "qasm3/Importer.hpp"

#include <fstream>
#include <iostream>
#include <sstream>
#include <unistd.h>
using namespace vf;
namespace {
std::string cut(const std::string& s) { return s.size() > 200 ? s.substr(0, 200) + "..." : s; }

void compareRegs(Ctx& c, const qc::QuantumComputation& q, const Program& p) {
  c.check(q.getNqubits() == p.circ.n, "number-of-qubits", std::to_string(q.getNqubits()) + " instead of " + std::to_string(p.circ.n));
  c.check(q.getQuantumRegisters().size() == p.q.size(), "number-of-quantum-registers");
  for (const auto& g : p.q) {
    const auto it = q.getQuantumRegisters().find(g.name);
    if (c.check(it != q.getQuantumRegisters().end(), "quantum-register-missing", g.name)) {
      c.check(it->second.getSize() == g.size && it->second.getStartIndex() == g.start, "quantum-register", g.name);
    }
  }
  std::size_t bits = 0;
  for (const auto& [name, g] : q.getClassicalRegisters()) {
    if (p.constants.count(name) == 0) {
      bits += g.getSize();
    }
  }
  c.check(bits == p.circ.nc, "number-of-bits", std::to_string(bits) + " instead of " + std::to_string(p.circ.nc));
  for (const auto& g : p.c) {
    const auto it = q.getClassicalRegisters().find(g.name);
    if (c.check(it != q.getClassicalRegisters().end(), "classical-register-missing", g.name)) {
      c.check(it->second.getSize() == g.size, "classical-register", g.name);
    }
  }
}
// renumbers the bits as if there were no registers for constants
bool rebit(const qc::QuantumComputation& q, const Program& p, std::vector<Op>& ops) {
  std::map<std::size_t, std::size_t> m;
  for (const auto& g : p.c) {
    const auto it = q.getClassicalRegisters().find(g.name);
    for (std::size_t i = 0; it != q.getClassicalRegisters().end() && i < g.size; ++i) {
      m[it->second.getStartIndex() + i] = g.start + i;
    }
  }
  const std::function<bool(Op&)> f = [&](Op& o) {
    for (auto* v : {&o.bits, &o.condBits}) {
      for (auto& x : *v) {
        if (m.count(x) == 0) {
          return false;
        }
        x = m[x];
      }
    }
    return std::all_of(o.body.begin(), o.body.end(), f);
  };
  return std::all_of(ops.begin(), ops.end(), f);
}
void compare(Ctx& c, const qc::QuantumComputation& q, const Program& p) {
  compareRegs(c, q, p);
  if (q.getNqubits() != p.circ.n || q.getNcbits() < p.circ.nc) {
    return;
  }
  auto got = lift(q);
  if (!c.check(rebit(q, p, got.ops), "bit-of-no-register")) {
    return;
  }
  got.nc = p.circ.nc;
  if (ProgGen::largest() > 1e4) {
    c.count("large_angles_skipped");
    return;
  }
  if (!p.dynamic) {
    const double d = dist(unitaryOf(got), unitaryOf(p.circ));
    c.count("unitary_programs");
    c.check(d < TOL, "unitary", "distance " + std::to_string(d) + "\nimported: " + cut(str(got)) + "\nexpected: " + cut(str(p.circ)));
    return;
  }
  c.count("dynamic_programs");
  for (int k = 0; k < 2; ++k) {
    Vec in = basis(p.circ.n, 0);
    if (k == 1) {
      for (auto& x : in) {
        x = {c.rng.uniform(-1, 1), c.rng.uniform(-1, 1)};
      }
      const double s = std::sqrt(norm2(in));
      for (auto& x : in) {
        x /= s;
      }
    }
    const auto e = ensemble(runBranches(p.circ, in));
    c.count("classical_outcomes", e.size());
    const double d = dist(ensemble(runBranches(got, in)), e);
    c.check(d < TOL, "ensemble", "distance " + std::to_string(d) + "\nimported: " + cut(str(got)) + "\nexpected: " + cut(str(p.circ)));
  }
}
void program(Ctx& c, bool dyn) {
  ProgGen g(c.rng, dyn ? 4 : 5, dyn ? 10 : 9, dyn);
  g.generate();
  announce(c, g.p.text);
  c.fingerprint = g.p.text;
  c.count(g.v2 ? "openqasm2" : "openqasm3");
  c.count("user_gates", g.mine.size());
  qc::QuantumComputation q;
  try {
    switch (c.rng.below(8)) {
    case 0: {
      std::istringstream is(g.p.text);
      q = qasm3::Importer::import(is);
      c.count("from_stream");
      break;
    }
    case 1: {
      const auto f = "/tmp/vf_p09_" + std::to_string(::getpid()) + ".qasm";
      std::ofstream(f) << g.p.text;
      struct Cleanup {
        std::string f;
        ~Cleanup() { ::unlink(f.c_str()); }
      } cleanup{f};
      q = qasm3::Importer::importf(f);
      c.count("from_file");
      break;
    }
    default:
      q = qasm3::Importer::imports(g.p.text);
    }
  } catch (const std::exception& e) {
    c.check(false, "valid-program-rejected", e.what());
    return;
  }
  compare(c, q, g.p);
}

// multi-controlled gates with the ancillary qubits of OpenQASM 2 exporters
void mcGates(Ctx& c) {
  ProgGen::largest() = 0;
  auto& r = c.rng;
  static const std::vector<std::string> kinds = {"mcx", "mcx_gray", "mcx_vchain", "mcx_recursive", "mcphase"};
  const auto& k = r.pick(kinds);
  const bool v2 = r.chance(0.6);
  const unsigned maxC = k == "mcx_vchain" ? 4 : k == "mcx_recursive" ? 5 : 5;
  const auto nc = static_cast<unsigned>(r.range(k == "mcx_recursive" ? 1 : k == "mcx_vchain" ? 2 : 1, maxC));
  unsigned anc = 0;
  if (k == "mcx_vchain") {
    anc = nc - 2;
  } else if (k == "mcx_recursive" && nc >= 5) {
    anc = 1;
  }

  const auto extra = !v2 && nc < 4 ? static_cast<unsigned>(r.below(2)) : 0;
  const auto n = nc + 1 + anc + extra;
  const bool neg = r.chance(0.5);
  const bool inv = !v2 && r.chance(0.3);
  Program p;
  p.circ.n = n;
  p.q.push_back({"q", n, 0});
  const double ang = r.uniform(-3, 3);
  char b[40];
  std::snprintf(b, sizeof b, "(%.17g)", ang);
  const auto idx = r.perm(n);
  p.text = v2 ? "OPENQASM 2.0;\ninclude \"qelib1.inc\";\nqreg q[" : "OPENQASM 3.0;\ninclude \"stdgates.inc\";\nqreg q[";
  p.text += std::to_string(n) + "];\n" + (inv ? "inv @ " : "") + (extra > 0 ? (neg ? "negctrl @ " : "ctrl @ ") : "") + k + (k == "mcphase" ? b : "") + " ";
  for (unsigned i = 0; i < n; ++i) {
    p.text += (i > 0 ? "," : "") + ("q[" + std::to_string(idx[i])) + "]";
  }
  p.text += ";\n";
  Op o;
  o.type = k == "mcphase" ? qc::P : qc::X;
  if (k == "mcphase") {
    o.p = {inv ? -ang : ang};
  }
  for (unsigned i = 0; i < extra; ++i) {
    o.c.push_back({static_cast<unsigned>(idx[i]), !neg});
  }
  for (unsigned i = 0; i < nc; ++i) {
    o.c.push_back({static_cast<unsigned>(idx[extra + i]), true});
  }
  o.t = {static_cast<unsigned>(idx[extra + nc])};
  p.circ.ops = {o};
  announce(c, p.text);
  c.fingerprint = p.text;
  qc::QuantumComputation q;
  try {
    q = qasm3::Importer::imports(p.text);
  } catch (const std::exception& e) {
    c.check(false, "valid-program-rejected", e.what());
    return;
  }
  compare(c, q, p);
}
} // namespace

int main(int argc, char** argv) {
  std::cerr.setstate(std::ios::failbit);
  return runMain(argc, argv, "P09",
                 {
                     {"unitary", 30000, 300000, [](Ctx& c) { program(c, false); }},
                     {"dynamic", 20000, 200000, [](Ctx& c) { program(c, true); }},
                     {"mc-gates", 500, 3000, mcGates},
                 });
}
