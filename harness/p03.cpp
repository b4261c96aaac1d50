// P03: decision-diagram arithmetic equals dense linear algebra.
#include "common/pool.hpp"
using namespace vf;
namespace {
// random operation histories in one package: all operations, cached results included
void history(Ctx& c) {
  auto& r = c.rng;
  const auto n = static_cast<unsigned>(r.range(1, 4));
  dd::Package dd(2 * n + r.below(2), randConfig(r));
  Pool p(c, dd, n);
  const auto steps = r.range(10, 45);
  for (std::size_t i = 0; i < steps; ++i) {
    p.step();
  }
  p.revisit();
  c.count("steps", p.ops);
  c.fingerprint = p.log;
}
// dense vectors and matrices to diagrams and back, all readers
void readers(Ctx& c) {
  auto& r = c.rng;
  const auto n = static_cast<unsigned>(r.range(1, 7));
  dd::Package dd(n, randConfig(r));
  auto v = randState(r, n);
  const C s(r.uniform(-2, 2), r.uniform(-2, 2));
  for (auto& x : v) {
    x *= s;
  }
  announce(c, "vector " + vecStr(v));
  if (maxAbs(v) < 1e-3) {
    throw Skip{};
  }
  const auto e = dd.makeStateFromVector(dd::CVec(v.begin(), v.end()));
  const double tol = 1e-9;
  c.check(dist(toVec(e), v) < tol, "dense-vector");
  const auto sp = e.getSparseVector();
  Vec w(v.size());
  for (const auto& [i, x] : sp) {
    if (c.check(i < w.size(), "sparse-index", cat(i))) {
      w[i] = x;
    }
  }
  c.check(dist(w, v) < tol, "sparse-vector");
  for (std::size_t t = 0; t < 4; ++t) {
    const auto i = r.below(v.size());
    c.check(std::abs(e.getValueByIndex(i) - v[i]) < tol, "value-by-index", cat(i));
  }
  dd::CVec acc(v.size());
  Vec base(v.size());
  for (std::size_t i = 0; i < acc.size(); ++i) {
    base[i] = C(r.uniform(-1, 1), 0);
    acc[i] = base[i];
  }
  e.addToVector(acc);
  for (std::size_t i = 0; i < acc.size(); ++i) {
    base[i] += v[i];
  }
  c.check(dist(Vec(acc.begin(), acc.end()), base) < tol, "add-to-vector");
  // thresholds only drop small entries
  const double th = r.uniform(0, 0.5) * maxAbs(v);
  const auto cut = e.getVector(th);
  for (std::size_t i = 0; i < v.size(); ++i) {
    const bool kept = std::abs(cut[i] - v[i]) < tol;
    c.check(kept || (std::abs(cut[i]) < tol && std::abs(v[i]) <= th + tol), "threshold", cat(i));
  }
  if (n <= 5) {
    const auto m = randMat(r, n);
    const auto f = dd.makeDDFromMatrix(toCMat(m));
    c.check(dist(toMat(f, n), m) < tol, "dense-matrix");
    const auto sm = f.getSparseMatrix(n);
    Mat d(m.n);
    for (const auto& [k, x] : sm) {
      if (c.check(k.first < d.n && k.second < d.n, "sparse-matrix-index")) {
        d.at(k.first, k.second) = x;
      }
    }
    c.check(dist(d, m) < tol, "sparse-matrix");
    for (std::size_t t = 0; t < 4; ++t) {
      const auto i = r.below(m.n);
      const auto j = r.below(m.n);
      c.check(std::abs(f.getValueByIndex(n, i, j) - m.at(i, j)) < tol, "matrix-entry", cat(i, ",", j));
    }
  }
}
// equality with the identity, with and without garbage, up to a phase
void identity(Ctx& c) {
  auto& r = c.rng;
  const auto n = static_cast<unsigned>(r.range(1, 5));
  dd::Package dd(n, randConfig(r));
  std::vector<bool> garbage(n);
  std::vector<unsigned> g;
  std::vector<unsigned> rest;
  const bool withGarbage = r.chance(0.5);
  for (unsigned i = 0; i < n; ++i) {
    garbage[i] = withGarbage && r.chance(0.4);
    (garbage[i] ? g : rest).push_back(i);
  }
  GenCfg cfg;
  cfg.n = n;
  cfg.nops = r.range(1, 6);
  auto circ = genCirc(r, cfg);
  Mat u = unitaryOf(circ);
  const auto kind = r.below(4);
  bool yes = false;
  if (kind == 0) { // U followed by its inverse
    u = dagger(u) * u;
    yes = true;
  } else if (kind == 1) { // acts on the garbage only
    if (g.empty()) {
      u = Mat::id(u.n);
    } else {
      GenCfg h;
      h.n = static_cast<unsigned>(g.size());
      h.nops = r.range(1, 5);
      u = embed(unitaryOf(genCirc(r, h)), g, n);
    }
    yes = true;
  } else if (kind == 2) { // a clear off-diagonal action on a relevant qubit
    if (rest.empty()) {
      throw Skip{};
    }
    GenCfg h;
    h.n = 1;
    Circ k;
    k.n = 1;
    Op o;
    o.type = r.chance(0.5) ? qc::RX : qc::RY;
    o.p = {r.uniform(0.2, 3)};
    o.t = {0};
    k.ops = {o};
    Mat m = embed(unitaryOf(k), {r.pick(rest)}, n);
    if (!g.empty()) {
      GenCfg hh;
      hh.n = static_cast<unsigned>(g.size());
      hh.nops = 3;
      m = m * embed(unitaryOf(genCirc(r, hh)), g, n);
    }
    u = m;
  } else { // relative phase on a relevant qubit
    if (rest.empty() || withGarbage) {
      throw Skip{};
    }
    u = Mat::id(u.n);
    const auto q = r.pick(rest);
    const C ph = std::polar(1., r.uniform(0.2, 6));
    for (std::size_t i = 0; i < u.n; ++i) {
      if (((i >> q) & 1U) != 0 && (r.chance(0.6) || i + 1 == u.n)) {
        u.at(i, i) = ph;
      }
    }
  }
  u = scale(u, std::polar(1., r.uniform(0, 6)));
  const auto e = dd.makeDDFromMatrix(toCMat(u));
  std::string bits;
  for (const bool b : garbage) {
    bits += b ? '1' : '0';
  }
  announce(c, cat("kind ", kind, " garbage ", bits, " ", str(circ)));
  const bool got = withGarbage ? dd.isCloseToIdentity(e, 1e-10, garbage) : dd.isCloseToIdentity(e);
  c.check(got == yes, cat("close-to-identity:", kind), cat("reported ", got));
  if (yes) {
    c.check(dd.isCloseToIdentity(e, 1e-10, withGarbage ? garbage : std::vector<bool>{}, false), "close-to-diagonal");
  } else if (kind == 2) {
    c.check(!dd.isCloseToIdentity(e, 1e-10, withGarbage ? garbage : std::vector<bool>{}, false), "not-diagonal");
  }
  c.fingerprint = cat(c.caseSeed);
}
// named states and gates built directly from matrices
void builders(Ctx& c) {
  auto& r = c.rng;
  const auto n = static_cast<unsigned>(r.range(1, 7));
  const auto start = static_cast<unsigned>(r.below(3));
  dd::Package dd(n + start, randConfig(r));
  announce(c, cat("n ", n, " start ", start));
  Vec w(std::size_t{1} << n);
  for (unsigned i = 0; i < n; ++i) {
    w[std::size_t{1} << i] = 1 / std::sqrt(static_cast<double>(n));
  }
  c.check(dist(toVec(dd.makeWState(n)), w) < 1e-9, "w-state");
  Vec ghz(std::size_t{1} << n);
  ghz.front() = ghz.back() = std::sqrt(0.5);
  c.check(dist(toVec(dd.makeGHZState(n)), ghz) < 1e-9, "ghz-state");
  c.check(dist(toVec(dd.makeZeroState(n)), basis(n, 0)) < 1e-9, "zero-state");
  std::vector<dd::BasisStates> bs;
  Vec exp{1};
  const double s = std::sqrt(0.5);
  const std::vector<Vec> loc{{1, 0}, {0, 1}, {s, s}, {s, -s}, {s, C(0, s)}, {s, C(0, -s)}};
  const std::vector<dd::BasisStates> kinds{dd::BasisStates::zero, dd::BasisStates::one, dd::BasisStates::plus,
                                           dd::BasisStates::minus, dd::BasisStates::right, dd::BasisStates::left};
  for (unsigned i = 0; i < n; ++i) {
    const auto k = r.below(6);
    bs.push_back(kinds[k]);
    exp = kron(loc[k], exp);
  }
  c.check(dist(toVec(dd.makeBasisState(n, bs)), exp) < 1e-9, "basis-state");
  bool threw = false;
  try {
    dd.makeZeroState(n + start + 1);
  } catch (const std::exception&) {
    threw = true;
  }
  c.check(threw, "too-many-qubits-accepted");
  // a two-level matrix on any target with any controls
  GenCfg g;
  g.n = std::min(n, 5U);
  const auto qs = pickQubits(r, g.n, r.range(1, g.n));
  const auto u = randDense(r, 2, 0);
  qc::Controls ctl;
  Mat exp2 = Mat::id(std::size_t{1} << g.n);
  std::vector<Ctl> cl;
  for (std::size_t i = 1; i < qs.size(); ++i) {
    const bool pos = r.chance(0.5);
    ctl.insert({qs[i], pos ? qc::Control::Type::Pos : qc::Control::Type::Neg});
    cl.push_back({qs[i], pos});
  }
  const dd::GateMatrix gm{u.a[0], u.a[1], u.a[2], u.a[3]};
  const auto e = dd.makeGateDD(gm, ctl, qs[0]);
  for (std::size_t j = 0; j < exp2.n; ++j) {
    auto v = basis(g.n, j);
    applyMatrix(v, u, {qs[0]}, cl);
    for (std::size_t i = 0; i < exp2.n; ++i) {
      exp2.at(i, j) = v[i];
    }
  }
  c.check(dist(toMat(e, g.n), exp2) < 1e-9, "gate-from-matrix");
  if (qs.size() >= 2) {
    const auto t = randDense(r, 4, static_cast<int>(r.below(3)));
    dd::TwoQubitGateMatrix tm{};
    for (std::size_t i = 0; i < 4; ++i) {
      for (std::size_t j = 0; j < 4; ++j) {
        tm.at(i).at(j) = t.at(i, j);
      }
    }
    qc::Controls ctl2;
    std::vector<Ctl> cl2;
    for (std::size_t i = 2; i < qs.size(); ++i) {
      const bool pos = r.chance(0.5);
      ctl2.insert({qs[i], pos ? qc::Control::Type::Pos : qc::Control::Type::Neg});
      cl2.push_back({qs[i], pos});
    }
    // the first target is the more significant index of the matrix
    const auto f = dd.makeTwoQubitGateDD(tm, ctl2, qs[0], qs[1]);
    Mat exp3(std::size_t{1} << g.n);
    for (std::size_t j = 0; j < exp3.n; ++j) {
      auto v = basis(g.n, j);
      applyMatrix(v, t, {qs[0], qs[1]}, cl2);
      for (std::size_t i = 0; i < exp3.n; ++i) {
        exp3.at(i, j) = v[i];
      }
    }
    c.check(dist(toMat(f, g.n), exp3) < 1e-9, "two-qubit-gate-from-matrix");
  }
  c.fingerprint = cat(c.caseSeed);
}
// fidelity of measurement outcomes: sum of |amplitude| * sqrt(p) over the relabelled outcomes
void outcomes(Ctx& c) {
  auto& r = c.rng;
  const auto n = static_cast<unsigned>(r.range(1, 6));
  dd::Package dd(n, randConfig(r));
  const auto v = randState(r, n);
  announce(c, "vector " + vecStr(v));
  const auto e = dd.makeStateFromVector(dd::CVec(v.begin(), v.end()));
  dd::SparsePVec probs;
  double exp = 0;
  for (std::size_t i = 0; i < v.size(); ++i) {
    if (r.chance(0.6)) {
      probs[i] = r.unit();
      exp += std::abs(v[i]) * std::sqrt(probs[i]);
    }
  }
  c.check(std::abs(dd::Package::fidelityOfMeasurementOutcomes(e, probs) - exp) < 1e-8, "outcome-fidelity");
}
// eliminating ancillary inputs and merging garbage outcomes of arbitrary vectors and matrices
void reductions(Ctx& c) {
  auto& r = c.rng;
  const auto n = static_cast<unsigned>(r.range(1, 5));
  dd::Package dd(n, randConfig(r));
  std::vector<bool> marks(n);
  std::size_t mask = 0;
  std::string bits;
  const double p = r.uniform(0, 1);
  for (unsigned i = 0; i < n; ++i) {
    marks[i] = r.chance(p);
    mask |= (marks[i] ? std::size_t{1} : std::size_t{0}) << i;
    bits += marks[i] ? '1' : '0';
  }
  const bool normalize = r.chance(0.4);
  const bool regular = r.chance(0.6);
  const int what = static_cast<int>(r.below(4));
  announce(c, cat("n ", n, " marks ", bits, " normalize ", normalize, " regular ", regular, " kind ", what));
  const double tol = 1e-8;
  if (what == 0) {
    const auto v = r.chance(0.5) ? randState(r, n) : [&] {
      Vec x(std::size_t{1} << n);
      for (auto& y : x) {
        y = r.chance(0.5) ? C(static_cast<double>(r.below(3)) - 1, static_cast<double>(r.below(3)) - 1) : C(0);
      }
      return x;
    }();
    if (maxAbs(v) < 1e-3) {
      throw Skip{};
    }
    auto e = dd.makeStateFromVector(dd::CVec(v.begin(), v.end()));
    dd.incRef(e);
    const auto got = dd.reduceGarbage(e, marks, normalize);
    dd.garbageCollect(true);
    Vec exp(v.size());
    for (std::size_t i = 0; i < v.size(); ++i) {
      exp[i & ~mask] += std::norm(v[i]);
    }
    const auto w = viewV(got, n);
    for (std::size_t i = 0; i < v.size(); ++i) {
      c.check(std::abs(std::abs(w[i]) - std::sqrt(exp[i].real())) < tol, "merged-vector", cat(i, " ", w[i], " expected ", std::sqrt(exp[i].real())));
      if (mask == 0 && !normalize) {
        c.check(std::abs(w[i] - v[i]) < tol, "unmarked-vector", cat(i));
      }
      if (normalize) {
        c.check(std::abs(w[i].imag()) < tol && w[i].real() > -tol, "magnitudes-vector", cat(i, " ", w[i]));
      }
    }
    return;
  }
  auto m = what == 1 ? scale(Mat::id(std::size_t{1} << n), std::polar(r.uniform(0.2, 1.5), r.chance(0.3) ? 0. : r.uniform(0, 6))) : randMat(r, n);
  if (maxAbs(m.a) < 1e-3) {
    throw Skip{};
  }
  const auto e = dd.makeDDFromMatrix(toCMat(m));
  dd.incRef(e);
  if (what == 3) {
    const auto got = dd.reduceAncillae(e, marks, regular);
    dd.garbageCollect(true);
    const auto w = toMat(got, n);
    for (std::size_t i = 0; i < m.n; ++i) {
      for (std::size_t j = 0; j < m.n; ++j) {
        const auto exp = ((regular ? j : i) & mask) != 0 ? C(0) : m.at(i, j);
        c.check(std::abs(w.at(i, j) - exp) < tol, "ancillae-matrix", cat(i, ",", j, " ", w.at(i, j), " expected ", exp));
      }
    }
    return;
  }
  const auto got = dd.reduceGarbage(e, marks, regular, normalize);
  dd.garbageCollect(true);
  const auto w = toMat(got, n);
  Mat exp(m.n);
  for (std::size_t i = 0; i < m.n; ++i) {
    for (std::size_t j = 0; j < m.n; ++j) {
      (regular ? exp.at(i & ~mask, j) : exp.at(i, j & ~mask)) += std::norm(m.at(i, j));
    }
  }
  for (std::size_t i = 0; i < m.n; ++i) {
    for (std::size_t j = 0; j < m.n; ++j) {
      const auto x = w.at(i, j);
      c.check(std::abs(std::abs(x) - std::sqrt(exp.at(i, j).real())) < tol, "merged-matrix",
              cat(i, ",", j, " ", x, " expected ", std::sqrt(exp.at(i, j).real())));
      if (mask == 0 && !normalize) {
        c.check(std::abs(x - m.at(i, j)) < tol, "unmarked-matrix", cat(i, ",", j));
      }
      if (normalize) {
        c.check(std::abs(x.imag()) < tol && x.real() > -tol, "magnitudes-matrix", cat(i, ",", j, " ", x));
      }
    }
  }
}
} // namespace
int main(int argc, char** argv) {
  return runMain(argc, argv, "P03",
                 {{"history", 14000, 150000, history},
                  {"readers", 4000, 40000, readers},
                  {"identity", 4000, 40000, identity},
                  {"builders", 2000, 20000, builders},
                  {"outcomes", 1000, 10000, outcomes},
                  {"reductions", 6000, 60000, reductions}});
}
