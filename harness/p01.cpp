// P01: decision-diagram simulation equals the state-vector semantics.
#include "common/ddutil.hpp"
#include "common/sparse.hpp"
using namespace vf;
namespace {
constexpr double TOL = 1e-7;

// expected final logical state for a circuit acting on physical qubits
Vec expected(const Circ& c, const Vec& in, const qc::Permutation& init, const qc::Permutation& out) {
  // ops act on physical qubits; `in` is indexed by logical qubits (initial layout)
  const unsigned n = c.n;
  Vec phys(in.size());
  for (std::size_t b = 0; b < in.size(); ++b) {
    std::size_t pb = 0;
    for (unsigned p = 0; p < n; ++p) {
      pb |= ((b >> init.at(p)) & 1U) << p;
    }
    phys[pb] = in[b];
  }
  phys = runUnitary(c, phys);
  Vec res(in.size());
  for (std::size_t pb = 0; pb < in.size(); ++pb) {
    std::size_t b = 0;
    for (unsigned p = 0; p < n; ++p) {
      b |= ((pb >> p) & 1U) << out.at(p);
    }
    res[b] = phys[pb];
  }
  return res;
}
void setLayout(qc::QuantumComputation& q, Rng& r, unsigned n) {
  const auto a = r.perm(n);
  const auto b = r.perm(n);
  for (unsigned i = 0; i < n; ++i) {
    q.initialLayout[i] = static_cast<qc::Qubit>(a[i]);
    q.outputPermutation[i] = static_cast<qc::Qubit>(b[i]);
  }
}
std::string permStr(const qc::Permutation& p) {
  std::string s;
  for (const auto& [k, v] : p) {
    s += cat(k, "->", v, " ");
  }
  return s;
}
dd::VectorDD inputDD(dd::Package& dd, Rng& r, unsigned n, Vec& in) {
  const auto k = r.below(4);
  if (k == 0) {
    in = randState(r, n);
    auto e = dd.makeStateFromVector(dd::CVec(in.begin(), in.end()));
    dd.incRef(e);
    // makeStateFromVector may or may not have taken a reference already; holding one more is harmless
    return e;
  }
  if (k == 1) {
    std::vector<bool> bits(n);
    std::size_t idx = 0;
    for (unsigned i = 0; i < n; ++i) {
      bits[i] = r.chance(0.5);
      idx |= static_cast<std::size_t>(bits[i]) << i;
    }
    in = basis(n, idx);
    return dd.makeBasisState(n, bits);
  }
  in = basis(n, 0);
  return dd.makeZeroState(n);
}
void simulateOn(Ctx& c, dd::Package& dd, const GenCfg& g, bool layout) {
  auto& r = c.rng;
  auto circ = genCirc(r, g);
  if (r.chance(0.2)) {
    circ.gphase = randAngle(r);
  }
  auto q = build(circ, r);
  if (layout) {
    setLayout(q, r, g.n);
  }
  Vec in;
  const auto e = inputDD(dd, r, g.n, in);
  announce(c, str(circ) + (layout ? " init " + permStr(q.initialLayout) + " out " + permStr(q.outputPermutation) : "") +
                  " in " + vecStr(in));
  // gate methods may fold a gphase operation into the circuit: the final phase is what the circuit says
  const auto exp = expected(circ, in, q.initialLayout, q.outputPermutation);
  const auto res = dd::simulate(q, e, dd);
  const auto got = toVec(res);
  c.count("ops", circ.ops.size());
  c.check(dist(got, exp) < TOL, "state-differs:" + c.suite, cat("max deviation ", dist(got, exp), " got ", vecStr(got), " expected ", vecStr(exp)));
  // other observers of the same state
  const auto idx = r.below(got.size());
  c.check(std::abs(res.getValueByIndex(idx) - exp[idx]) < TOL, "amplitude-by-index", cat("index ", idx));
  std::string path(g.n, '0');
  for (unsigned i = 0; i < g.n; ++i) {
    path[i] = ((idx >> i) & 1U) ? '1' : '0';
  }
  c.check(std::abs(res.getValueByPath(g.n, path) - exp[idx]) < TOL, "amplitude-by-path", cat("index ", idx));
  const auto sp = res.getSparseVector();
  double sd = 0;
  for (std::size_t i = 0; i < exp.size(); ++i) {
    const auto it = sp.find(i);
    sd = std::max(sd, std::abs((it == sp.end() ? C(0) : it->second) - exp[i]));
  }
  c.check(sd < TOL, "sparse-vector", cat(sd));
  double nrm = norm2(got);
  c.check(std::abs(nrm - 1) < 1e-7, "norm-not-one", cat(nrm));
  dd.decRef(res);
}
void generic(Ctx& c) {
  GenCfg g;
  g.n = static_cast<unsigned>(c.rng.range(1, 6));
  g.nops = c.rng.range(1, 30);
  const auto cfg = randConfig(c.rng);
  dd::Package dd(g.n + c.rng.below(3), cfg);
  simulateOn(c, dd, g, false);
}
void layout(Ctx& c) {
  GenCfg g;
  g.n = static_cast<unsigned>(c.rng.range(2, 6));
  g.nops = c.rng.range(1, 20);
  if (c.rng.chance(0.5)) {
    g.gates = {qc::SWAP, qc::X, qc::H, qc::U, qc::P, qc::iSWAP, qc::RZX};
    g.ctlProb = 0.3;
  }
  dd::Package dd(g.n, randConfig(c.rng));
  simulateOn(c, dd, g, true);
}
void history(Ctx& c) {
  // many circuits on one package with garbage collections in between
  const auto cfg = randConfig(c.rng);
  const auto n = static_cast<unsigned>(c.rng.range(2, 5));
  dd::Package dd(n, cfg);
  std::string all;
  for (int k = 0; k < 6; ++k) {
    GenCfg g;
    g.n = static_cast<unsigned>(c.rng.range(1, n));
    g.nops = c.rng.range(1, 20);
    simulateOn(c, dd, g, g.n > 1 && c.rng.chance(0.3));
    all += c.desc + "\n";
    if (c.rng.chance(0.3)) {
      dd.garbageCollect(true);
    }
    if (c.rng.chance(0.15)) {
      dd.clearComputeTables();
    }
  }
  c.fingerprint = all;
}
void wide(Ctx& c) {
  GenCfg g;
  g.n = static_cast<unsigned>(c.rng.range(7, 10));
  g.nops = c.rng.range(5, 25);
  g.maxCtl = g.n - 1;
  dd::Package dd(g.n, randConfig(c.rng));
  simulateOn(c, dd, g, c.rng.chance(0.3));
}
// tens of qubits, few basis states
void huge(Ctx& c) {
  auto& r = c.rng;
  const auto n = static_cast<unsigned>(r.chance(0.6) ? r.range(20, 63) : r.range(64, 120));
  const auto init = r.perm(n);
  const auto outp = r.perm(n);
  const bool layout = r.chance(0.4);
  const auto start = r.chance(0.3) ? Key{0} : randKey(r, n);
  Key phys = start; // ops act on physical qubits, states are indexed by logical ones
  if (layout) {
    phys = 0;
    for (unsigned p = 0; p < n; ++p) {
      phys |= bitOf(start, init[p]) ? oneBit(p) : Key{0};
    }
  }
  Sparse exp;
  auto circ = genSparse(r, n, r.range(1, 25), {{phys, 1}}, exp);
  if (layout) {
    Sparse moved;
    for (const auto& [k, a] : exp) {
      Key x = 0;
      for (unsigned p = 0; p < n; ++p) {
        x |= bitOf(k, p) ? oneBit(outp[p]) : Key{0};
      }
      moved[x] = a;
    }
    exp = moved;
  }
  auto q = build(circ, r);
  if (layout) {
    for (unsigned i = 0; i < n; ++i) {
      q.initialLayout[i] = static_cast<qc::Qubit>(init[i]);
      q.outputPermutation[i] = static_cast<qc::Qubit>(outp[i]);
    }
  }
  announce(c, str(circ) + (layout ? " init " + permStr(q.initialLayout) + " out " + permStr(q.outputPermutation) : "") + " in " +
                  keyStr(start, n));
  dd::Package dd(n, randConfig(r));
  std::vector<bool> bits(n);
  for (unsigned i = 0; i < n; ++i) {
    bits[i] = bitOf(start, i);
  }
  const auto e = start == 0 ? dd.makeZeroState(n) : dd.makeBasisState(n, bits);
  const auto res = dd::simulate(q, e, dd);
  c.count("ops", circ.ops.size());
  double d = 0;
  double nrm = 0;
  for (const auto& [k, a] : exp) {
    d = std::max(d, std::abs(res.getValueByPath(n, keyStr(k, n)) - a));
    nrm += std::norm(a);
    if (n <= 63) {
      d = std::max(d, std::abs(res.getValueByIndex(static_cast<std::size_t>(k)) - a));
    }
    // a neighbour
    const Key o = k ^ oneBit(r.below(n));
    const auto it = exp.find(o);
    d = std::max(d, std::abs(res.getValueByPath(n, keyStr(o, n)) - (it == exp.end() ? C(0) : it->second)));
    c.count("amplitudes", 2);
  }
  c.check(std::abs(nrm - 1) < 1e-7, "reference-norm");
  c.check(d < TOL, "state-differs:huge", cat("deviation ", d));
  if (n <= 63) {
    const auto sp = res.getSparseVector(1e-9);
    double sd = 0;
    std::size_t big = 0;
    for (const auto& [k, a] : sp) {
      const auto it = exp.find(k);
      sd = std::max(sd, std::abs((it == exp.end() ? C(0) : it->second) - a));
    }
    for (const auto& [k, a] : exp) {
      big += std::abs(a) > 1e-6 && sp.find(static_cast<std::size_t>(k)) == sp.end() ? 1 : 0;
    }
    c.check(sd < TOL && big == 0, "sparse-vector:huge", cat(sd, " missing ", big));
  }
  // the whole norm is found below the root
  c.check(std::abs(dd.fidelity(res, res) - 1) < 1e-6, "norm:huge", cat(dd.fidelity(res, res)));
  dd.decRef(res);
}
void deep(Ctx& c) {
  GenCfg g;
  g.n = static_cast<unsigned>(c.rng.range(2, 4));
  g.nops = c.rng.range(80, 200);
  dd::Package dd(g.n, randConfig(c.rng));
  simulateOn(c, dd, g, false);
}
// every gate kind x target tuple x control pattern on 4 qubits
struct Pat {
  std::size_t gate;
  std::vector<unsigned> t;
  std::vector<Ctl> ctl;
};
const std::vector<Pat>& patterns() {
  static const auto ps = [] {
    std::vector<Pat> v;
    const unsigned n = 4;
    for (std::size_t g = 0; g < allGates().size(); ++g) {
      const int k = allGates()[g].targets;
      for (unsigned a = 0; a < n; ++a) {
        for (unsigned b = 0; b < (k == 2 ? n : 1); ++b) {
          if (k == 2 && a == b) {
            continue;
          }
          std::vector<unsigned> t{a};
          if (k == 2) {
            t.push_back(b);
          }
          std::vector<unsigned> rest;
          for (unsigned i = 0; i < n; ++i) {
            if (std::find(t.begin(), t.end(), i) == t.end()) {
              rest.push_back(i);
            }
          }
          unsigned tot = 1;
          for (std::size_t i = 0; i < rest.size(); ++i) {
            tot *= 3;
          }
          for (unsigned m = 0; m < tot; ++m) {
            Pat p{g, t, {}};
            unsigned x = m;
            for (const auto q : rest) {
              if (x % 3 == 1) {
                p.ctl.push_back({q, true});
              } else if (x % 3 == 2) {
                p.ctl.push_back({q, false});
              }
              x /= 3;
            }
            v.push_back(p);
          }
        }
      }
    }
    return v;
  }();
  return ps;
}
void gates(Ctx& c) {
  static std::unique_ptr<dd::Package> shared;
  static int uses = 0;
  if (!shared || ++uses > 200) {
    shared = std::make_unique<dd::Package>(5);
    uses = 0;
  }
  auto& dd = *shared;
  const auto& ps = patterns();
  for (std::size_t k = 0; k < 18; ++k) {
    const std::size_t i = c.local * 18 + k;
    if (i >= ps.size()) {
      return;
    }
    const auto& p = ps[i];
    Op o;
    o.k = Op::Gate;
    o.type = allGates()[p.gate].t;
    o.t = p.t;
    o.c = p.ctl;
    for (int j = 0; j < allGates()[p.gate].params; ++j) {
      o.p.push_back(randAngle(c.rng));
    }
    Circ circ;
    circ.n = 4;
    circ.ops = {o};
    announce(c, str(circ));
    c.fingerprint += c.desc;
    const auto q = build(circ, c.rng);
    const auto in = randState(c.rng, 4);
    const auto e = dd.makeStateFromVector(dd::CVec(in.begin(), in.end()));
    dd.incRef(e);
    const auto res = dd::applyUnitaryOperation(*q.front(), e, dd);
    const auto exp = runUnitary(circ, in);
    c.check(dist(toVec(res), exp) < TOL, "gate-action:" + qc::toString(o.type), cat("deviation ", dist(toVec(res), exp)));
    // with a permutation of the qubits
    qc::Permutation perm;
    const auto pp = c.rng.perm(4);
    for (unsigned j = 0; j < 4; ++j) {
      perm[j] = static_cast<qc::Qubit>(pp[j]);
    }
    Circ pc = circ;
    remap(pc.ops[0], [&](unsigned x) { return static_cast<unsigned>(pp[x]); });
    const auto e2 = dd.makeStateFromVector(dd::CVec(in.begin(), in.end()));
    dd.incRef(e2);
    const auto res2 = dd::applyUnitaryOperation(*q.front(), e2, dd, perm);
    c.check(dist(toVec(res2), runUnitary(pc, in)) < TOL, "gate-action-permuted:" + qc::toString(o.type),
            cat("permutation ", permStr(perm)));
    dd.decRef(res);
    dd.decRef(res2);
    c.count("gate patterns");
  }
}
} // namespace
int main(int argc, char** argv) {
  const auto np = (patterns().size() + 17) / 18;
  return runMain(argc, argv, "P01",
                 {{"gates", np, np * 8, gates},
                  {"generic", 12000, 250000, generic},
                  {"layout", 6000, 120000, layout},
                  {"history", 1500, 30000, history},
                  {"wide", 400, 10000, wide},
                  {"huge", 1500, 40000, huge},
                  {"deep", 400, 10000, deep}});
}
