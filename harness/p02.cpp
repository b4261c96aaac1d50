// P02: functionality construction equals the product of the gates' matrices.
#include "common/ddutil.hpp"
#include "common/sparse.hpp"
using namespace vf;
namespace {
constexpr double TOL = 1e-7;
std::string permStr(const qc::Permutation& p) {
  std::string s;
  for (const auto& [k, v] : p) {
    s += cat(k, "->", v, " ");
  }
  return s;
}
// logical-level unitary of a circuit on physical qubits
Mat expected(const Circ& c, const qc::Permutation& init, const qc::Permutation& out) {
  const auto u = unitaryOf(c);
  const std::size_t d = u.n;
  std::vector<std::size_t> in(d);
  std::vector<std::size_t> ou(d);
  for (std::size_t pb = 0; pb < d; ++pb) {
    for (unsigned p = 0; p < c.n; ++p) {
      in[pb] |= ((pb >> p) & 1U) << init.at(p);
      ou[pb] |= ((pb >> p) & 1U) << out.at(p);
    }
  }
  Mat m(d);
  for (std::size_t i = 0; i < d; ++i) {
    for (std::size_t j = 0; j < d; ++j) {
      m.at(ou[i], in[j]) = u.at(i, j);
    }
  }
  return m;
}
void build(Ctx& c, dd::Package& dd, const GenCfg& g, bool layout, bool marks) {
  auto& r = c.rng;
  auto circ = genCirc(r, g);
  if (r.chance(0.3)) {
    circ.gphase = randAngle(r);
  }
  auto q = vf::build(circ, r);
  if (layout) {
    const auto a = r.perm(g.n);
    const auto b = r.perm(g.n);
    for (unsigned i = 0; i < g.n; ++i) {
      q.initialLayout[i] = static_cast<qc::Qubit>(a[i]);
      q.outputPermutation[i] = static_cast<qc::Qubit>(b[i]);
    }
  }
  std::vector<bool> anc(g.n, false);
  std::vector<bool> gar(g.n, false);
  if (marks) {
    for (unsigned i = 0; i < g.n; ++i) {
      anc[i] = r.chance(0.3);
      gar[i] = r.chance(0.25);
    }
    q.getAncillary() = anc;
    q.getGarbage() = gar;
  }
  std::string d = str(circ);
  if (layout) {
    d += " init " + permStr(q.initialLayout) + " out " + permStr(q.outputPermutation);
  }
  if (marks) {
    d += " ancillary/garbage ";
    for (unsigned i = 0; i < g.n; ++i) {
      d += cat(anc[i], "/", gar[i], " ");
    }
  }
  announce(c, d);
  auto exp = expected(circ, q.initialLayout, q.outputPermutation);
  for (std::size_t j = 0; j < exp.n; ++j) {
    for (unsigned k = 0; k < g.n; ++k) {
      if (anc[k] && ((j >> k) & 1U) != 0) {
        for (std::size_t i = 0; i < exp.n; ++i) {
          exp.at(i, j) = 0;
        }
      }
    }
  }
  const bool anyGarbage = std::find(gar.begin(), gar.end(), true) != gar.end();
  if (anyGarbage) {
    // merged probabilities; phases of merged entries carry no meaning
    Mat m(exp.n);
    for (std::size_t i = 0; i < exp.n; ++i) {
      std::size_t k = i;
      for (unsigned b = 0; b < g.n; ++b) {
        if (gar[b]) {
          k &= ~(std::size_t{1} << b);
        }
      }
      for (std::size_t j = 0; j < exp.n; ++j) {
        m.at(k, j) += std::norm(exp.at(i, j));
      }
    }
    for (auto& x : m.a) {
      x = std::sqrt(x.real());
    }
    exp = m;
  }
  auto view = [&](const dd::MatrixDD& e) {
    auto m = toMat(e, g.n);
    if (anyGarbage) {
      for (auto& x : m.a) {
        x = std::abs(x);
      }
    }
    return m;
  };
  const auto e = dd::buildFunctionality(q, dd);
  const auto got = view(e);
  c.count("ops", circ.ops.size());
  c.check(dist(got, exp) < TOL, cat("sequential-differs:", c.suite), cat("deviation ", dist(got, exp)));
  const auto f = dd::buildFunctionalityRecursive(q, dd);
  const auto got2 = view(f);
  c.check(dist(got2, exp) < TOL, cat("recursive-differs:", c.suite), cat("deviation ", dist(got2, exp)));
  dd.decRef(f);
  if (!marks) {
    const auto i = r.below(exp.n);
    const auto j = r.below(exp.n);
    c.check(std::abs(e.getValueByIndex(g.n, i, j) - exp.at(i, j)) < TOL, "entry-by-index", cat(i, ",", j));
    const auto sp = e.getSparseMatrix(g.n);
    double sd = 0;
    for (std::size_t a = 0; a < exp.n; ++a) {
      for (std::size_t b = 0; b < exp.n; ++b) {
        const auto it = sp.find({a, b});
        sd = std::max(sd, std::abs((it == sp.end() ? C(0) : it->second) - exp.at(a, b)));
      }
    }
    c.check(sd < TOL, "sparse-matrix", cat(sd));
  }
  dd.decRef(e);
}
void generic(Ctx& c) {
  GenCfg g;
  g.n = static_cast<unsigned>(c.rng.range(1, 5));
  g.nops = c.rng.range(0, 24);
  dd::Package dd(g.n + c.rng.below(2), randConfig(c.rng));
  build(c, dd, g, false, false);
}
void layout(Ctx& c) {
  GenCfg g;
  g.n = static_cast<unsigned>(c.rng.range(2, 5));
  g.nops = c.rng.range(0, 18);
  if (c.rng.chance(0.5)) {
    g.gates = {qc::SWAP, qc::X, qc::H, qc::U, qc::P, qc::DCX, qc::RZX};
    g.ctlProb = 0.3;
  }
  dd::Package dd(g.n, randConfig(c.rng));
  build(c, dd, g, true, false);
}
void marks(Ctx& c) {
  GenCfg g;
  g.n = static_cast<unsigned>(c.rng.range(2, 5));
  g.nops = c.rng.range(2, 12);
  if (c.rng.chance(0.5)) { // permutation-like circuits keep many identity levels and zero blocks
    g.gates = {qc::X, qc::SWAP, qc::Z, qc::S, qc::H};
    g.ctlProb = 0.7;
  }
  dd::Package dd(g.n, randConfig(c.rng));
  build(c, dd, g, c.rng.chance(0.4), true);
}
void lengths(Ctx& c) {
  // every circuit length 1..70: boundaries of the recursion
  GenCfg g;
  g.n = static_cast<unsigned>(c.rng.range(1, 3));
  g.nops = 1 + c.local % 70;
  dd::Package dd(g.n, randConfig(c.rng));
  build(c, dd, g, g.n > 1 && c.rng.chance(0.5), false);
}
void history(Ctx& c) {
  const auto n = static_cast<unsigned>(c.rng.range(2, 4));
  dd::Package dd(n, randConfig(c.rng));
  std::string all;
  for (int k = 0; k < 5; ++k) {
    GenCfg g;
    g.n = static_cast<unsigned>(c.rng.range(1, n));
    g.nops = c.rng.range(1, 20);
    build(c, dd, g, g.n > 1 && c.rng.chance(0.3), false);
    all += c.desc + "\n";
    if (c.rng.chance(0.3)) {
      dd.garbageCollect(true);
    }
  }
  c.fingerprint = all;
}
// diagrams of single operations, plain and inverse, under permutations
void single(Ctx& c) {
  static std::unique_ptr<dd::Package> shared;
  static int uses = 0;
  if (!shared || ++uses > 100) {
    shared = std::make_unique<dd::Package>(6);
    uses = 0;
  }
  auto& dd = *shared;
  GenCfg g;
  g.n = 5;
  g.maxCtl = 4;
  std::string all;
  for (int k = 0; k < 10; ++k) {
    const auto o = genOp(c.rng, g);
    announce(c, str(o));
    all += c.desc;
    const auto op = toOperation(o);
    const auto u = unitaryOf(o, g.n);
    c.check(dist(toMat(dd::getDD(*op, dd), g.n), u) < TOL, "operation-matrix:" + qc::toString(o.type));
    c.check(dist(toMat(dd::getInverseDD(*op, dd), g.n), dagger(u)) < TOL, "operation-inverse-matrix:" + qc::toString(o.type));
    qc::Permutation perm;
    const auto pp = c.rng.perm(g.n);
    for (unsigned j = 0; j < g.n; ++j) {
      perm[j] = static_cast<qc::Qubit>(pp[j]);
    }
    auto po = o;
    remap(po, [&](unsigned x) { return static_cast<unsigned>(pp[x]); });
    c.check(dist(toMat(dd::getDD(*op, dd, perm), g.n), unitaryOf(po, g.n)) < TOL, "operation-matrix-permuted:" + qc::toString(o.type));
    c.check(dist(toMat(dd::getInverseDD(*op, dd, perm), g.n), dagger(unitaryOf(po, g.n))) < TOL, "operation-inverse-matrix-permuted:" + qc::toString(o.type));
    const qc::ClassicControlledOperation cc(toOperation(o), static_cast<qc::Bit>(0), 1U);
    c.check(dist(toMat(dd::getDD(cc, dd, perm), g.n), unitaryOf(po, g.n)) < TOL, "operation-matrix-permuted:conditional");
    const bool sim = c.rng.chance(0.5);
    const auto pm = sim ? dd::applyUnitaryOperation(*op, dd::Package::makeIdent(), dd, perm)
                        : dd::applyUnitaryOperation(*op, dd::Package::makeIdent(), dd, perm, false);
    c.check(dist(toMat(pm, g.n), unitaryOf(po, g.n)) < TOL, "apply-permuted");
    dd.decRef(pm);
    // applying to a matrix from either side
    GenCfg h = g;
    h.nops = 4;
    const auto circ = genCirc(c.rng, h);
    const auto m = dd::buildFunctionality(vf::build(circ, c.rng), dd);
    const auto um = unitaryOf(circ);
    const bool left = c.rng.chance(0.5);
    const auto res = dd::applyUnitaryOperation(*op, m, dd, {}, left);
    c.check(dist(toMat(res, g.n), left ? u * um : um * u) < TOL, cat("apply-to-matrix:", left ? "left" : "right"));
    dd.decRef(res);
  }
  c.fingerprint = all;
}
// tens of qubits: columns of the functionality
void huge(Ctx& c) {
  auto& r = c.rng;
  const auto n = static_cast<unsigned>(r.chance(0.7) ? r.range(20, 62) : r.range(63, 110));
  const auto start = r.chance(0.2) ? Key{0} : randKey(r, n);
  Sparse exp;
  const auto circ = genSparse(r, n, r.range(1, 7), {{start, 1}}, exp);
  const auto q = vf::build(circ, r);
  announce(c, str(circ) + " column " + keyStr(start, n));
  dd::Package dd(n, randConfig(r));
  const auto e = dd::buildFunctionality(q, dd);
  const auto f = dd::buildFunctionalityRecursive(q, dd);
  c.count("ops", circ.ops.size());
  for (const auto& [what, m] : {std::pair{"sequential", e}, std::pair{"recursive", f}}) {
    double d = 0;
    for (const auto& [k, a] : exp) {
      for (const auto row : {k, k ^ oneBit(r.below(n))}) {
        const auto it = exp.find(row);
        const C want = it == exp.end() ? C(0) : it->second;
        if (n <= 62) {
          d = std::max(d, std::abs(m.getValueByIndex(n, static_cast<std::size_t>(row), static_cast<std::size_t>(start)) - want));
        }
        std::string path(n, '0');
        for (unsigned i = 0; i < n; ++i) {
          path[i] = static_cast<char>('0' + 2 * bitOf(row, i) + bitOf(start, i));
        }
        d = std::max(d, std::abs(m.getValueByPath(n, path) - want));
        c.count("entries", 2);
      }
    }
    c.check(d < TOL, cat(what, "-differs:huge"), cat("deviation ", d));
  }
  // applied to the basis state
  std::vector<bool> bits(n);
  for (unsigned i = 0; i < n; ++i) {
    bits[i] = bitOf(start, i);
  }
  const auto v = dd.makeBasisState(n, bits);
  const auto w = dd.multiply(e, v);
  double d = 0;
  for (const auto& [k, a] : exp) {
    d = std::max(d, std::abs(w.getValueByPath(n, keyStr(k, n)) - a));
  }
  c.check(d < TOL, "product-with-basis-state:huge", cat("deviation ", d));
}
} // namespace
int main(int argc, char** argv) {
  return runMain(argc, argv, "P02",
                 {{"generic", 12000, 240000, generic},
                  {"layout", 8000, 160000, layout},
                  {"marks", 12000, 240000, marks},
                  {"lengths", 2240, 28000, lengths},
                  {"history", 1200, 24000, history},
                  {"huge", 800, 16000, huge},
                  {"single", 1200, 24000, single}});
}
