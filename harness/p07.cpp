// P07: noise-aware simulation (density matrices, stochastic trajectories).
#include "common/ddutil.hpp"
#include "dd/NoiseFunctionality.hpp"

using namespace vf;
namespace {
struct Noise {
  std::string effects;
  double p1, pm, a1, am; // single/multi qubit gate noise, damping
};
std::string str(const Noise& x) { return cat(x.effects, " p=", x.p1, "/", x.pm, " a=", x.a1, "/", x.am); }
std::string genEffects(Rng& r, bool dup) {
  if (dup && r.chance(0.3)) {
    std::string s;
    for (std::size_t i = 0, k = r.below(5); i < k; ++i) {
      s += "APDI"[r.below(4)];
    }
    return s;
  }
  std::string all = "APDI";
  std::vector<char> v(all.begin(), all.end());
  r.shuffle(v);
  return std::string(v.begin(), v.begin() + static_cast<long>(r.range(1, 4)));
}
double genProb(Rng& r) {
  switch (r.below(6)) {
  case 0:
    return 0;
  case 1:
    return r.uniform(0, 0.02);
  case 2:
    return r.chance(0.5) ? 1 : 0.5;
  default:
    return r.uniform(0, 1);
  }
}
using Kraus = std::vector<Mat>;
Kraus krausOf(char e, double p, double a) {
  switch (e) {
  case 'A':
    return {m2(1, 0, 0, std::sqrt(1 - a)), m2(0, std::sqrt(a), 0, 0)};
  case 'P':
    return {scale(pauli('I'), std::sqrt(1 - p)), scale(pauli('Z'), std::sqrt(p))};
  case 'D':
    return {scale(pauli('I'), std::sqrt(1 - 0.75 * p)), scale(pauli('X'), std::sqrt(p / 4)),
            scale(pauli('Y'), std::sqrt(p / 4)), scale(pauli('Z'), std::sqrt(p / 4))};
  default:
    return {pauli('I')};
  }
}
Mat lift1(const Mat& m, unsigned q, unsigned n) {
  return kron(kron(Mat::id(std::size_t{1} << (n - 1 - q)), m), Mat::id(std::size_t{1} << q));
}
Mat conjBy(const Mat& k, const Mat& rho) { return k * rho * dagger(k); }
Mat channel(const Mat& rho, const Kraus& ks, unsigned q, unsigned n) {
  Mat out(rho.n);
  for (const auto& k : ks) {
    out = out + conjBy(lift1(k, q, n), rho);
  }
  return out;
}
void used(const Op& o, std::set<unsigned>& s) {
  for (const auto t : o.t) {
    s.insert(t);
  }
  for (const auto& c : o.c) {
    s.insert(c.q);
  }
  for (const auto& b : o.body) {
    used(b, s);
  }
}
Mat noisy(Mat rho, const Op& o, const Noise& x, unsigned n) {
  rho = conjBy(unitaryOf(o, n), rho);
  std::set<unsigned> s;
  used(o, s);
  for (const auto q : s) {
    for (const auto e : x.effects) {
      rho = channel(rho, krausOf(e, s.size() == 1 ? x.p1 : x.pm, s.size() == 1 ? x.a1 : x.am), q, n);
    }
  }
  return rho;
}
dd::DDPackageConfig dmConfig(Rng& r) {
  auto c = dd::DENSITY_MATRIX_SIMULATOR_DD_PACKAGE_CONFIG;
  if (r.chance(0.9)) {
    auto b = [&](std::size_t lo, std::size_t hi) { return std::size_t{1} << r.range(lo, hi); };
    c.utDmNumBucket = b(2, 10);
    c.utDmInitialAllocationSize = b(0, 8);
    c.ctDmDmMultNumBucket = b(0, 9);
    c.ctDmAddNumBucket = b(0, 9);
    c.ctDmNoiseNumBucket = b(0, 9);
    c.utMatNumBucket = b(2, 9);
    c.ctMatAddNumBucket = b(0, 9);
    c.ctVecAddNumBucket = 1;
    c.ctMatConjTransNumBucket = b(0, 9);
    c.ctDmTraceNumBucket = b(0, 9);
  }
  return c;
}
Mat dmMat(const dd::dEdge& e, std::size_t n) {
  const auto m = e.getMatrix(n);
  Mat r(m.size());
  for (std::size_t i = 0; i < m.size(); ++i) {
    for (std::size_t j = 0; j < m.size(); ++j) {
      r.at(i, j) = m[i].at(j);
    }
  }
  return r;
}
bool checkState(Ctx& c, const dd::dEdge& e, const Mat& rho, unsigned n, const std::string& at, double tol = 1e-6) {
  bool ok = true;
  const double d = dist(dmMat(e, n), rho);
  ok = c.check(d < tol, "density-matrix:" + at, cat("deviation ", d)) && ok;
  const double thr = c.rng.chance(0.3) ? 1e-3 : 0.;
  const auto sp = e.getSparseProbabilityVector(n, thr);
  // known finding: levels skipped at the top are missing from the keys (probed below)
  auto root = e;
  dd::dEdge::alignDensityEdge(root);
  const bool full = !root.isTerminal() && root.p->v == n - 1;
  const auto ss = full ? e.getSparseProbabilityVectorStrKeys(n, thr) : dd::SparsePVecStrKeys{};
  double sum = 0;
  for (std::size_t i = 0; i < rho.n; ++i) {
    const double p = rho.at(i, i).real();
    const auto it = sp.find(i);
    const double g = it == sp.end() ? 0 : it->second;
    sum += p;
    ok = c.check(std::abs(g - p) < tol || (g == 0 && p < thr + tol), "diagonal-probability:" + at, cat(i, ": ", g, " expected ", p)) && ok;
    std::string key;
    for (unsigned b = n; b-- > 0;) { // most significant qubit first
      key += ((i >> b) & 1U) != 0 ? '1' : '0';
    }
    const auto is = ss.find(key);
    ok = (!full || c.check((is == ss.end() ? 0. : is->second) == g, "diagonal-probability-keys:" + at, key)) && ok;
  }
  c.check(std::abs(sum - 1) < 1e-8, "trace-preserved", cat(sum));
  return ok;
}

void deterministic(Ctx& c, unsigned n, std::size_t nops) {
  auto& r = c.rng;
  Noise x{genEffects(r, true), genProb(r), genProb(r), genProb(r), genProb(r)};
  GenCfg g;
  g.n = n;
  g.gphase = 0.05;
  g.barrier = 0;
  g.compound = 0.05;
  g.nops = nops;
  if (r.chance(0.3)) {
    g.gates = {qc::H, qc::X, qc::T, qc::S, qc::Z};
  }
  const auto circ = genCirc(r, g);
  announce(c, cat("deterministic ", str(x), " ", str(circ)));
  dd::Package dd(n, dmConfig(r));
  dd::DeterministicNoiseFunctionality nf(dd, n, x.p1, x.pm, x.a1, x.am, x.effects);
  auto e = dd.makeZeroDensityOperator(n);
  Mat rho(std::size_t{1} << n);
  rho.at(0, 0) = 1;
  if (!checkState(c, e, rho, n, "initial")) {
    return;
  }
  std::size_t i = 0;
  for (const auto& o : circ.ops) {
    const auto op = toOperation(o);
    dd.applyOperationToDensity(e, dd::getDD(*op, dd));
    nf.applyNoiseEffects(e, op);
    rho = noisy(rho, o, x, n);
    if (r.chance(0.1)) {
      dd.garbageCollect(r.chance(0.5));
    }
    if ((++i % 4) == 0 || i == circ.ops.size()) {
      if (!checkState(c, e, rho, n, "evolution")) {
        return;
      }
    }
  }
  c.count("noisy-gates", i);
  // measurement
  std::mt19937_64 mt(r.next());
  double tol = 1e-6;
  for (unsigned k = 0; k < n; ++k) {
    const auto q = static_cast<unsigned>(r.below(n));
    const auto res = dd.measureOneCollapsing(e, static_cast<dd::Qubit>(q), mt);
    rho = conjBy(lift1(proj(res == '1'), q, n), rho);
    double p = 0;
    for (std::size_t j = 0; j < rho.n; ++j) {
      p += rho.at(j, j).real();
    }
    if (!c.check(p > 1e-10, "impossible-outcome", cat("qubit ", q, " measured ", res))) {
      return;
    }
    rho = scale(rho, 1 / p);
    tol /= p;
    if (tol > 1e-4) {
      return; // too little left for a comparison
    }
    c.count("measurements");
    if (!checkState(c, e, rho, n, "collapse", tol)) {
      return;
    }
  }
}

void measureFrequencies(Ctx& c) {
  auto& r = c.rng;
  const unsigned n = static_cast<unsigned>(r.range(1, 3));
  Noise x{genEffects(r, true), genProb(r), genProb(r), genProb(r), genProb(r)};
  GenCfg g;
  g.n = n;
  g.gphase = g.barrier = g.compound = 0;
  g.nops = r.range(1, 8);
  const auto circ = genCirc(r, g);
  announce(c, cat("measurement statistics ", str(x), " ", str(circ)));
  dd::Package dd(n, dmConfig(r));
  dd::DeterministicNoiseFunctionality nf(dd, n, x.p1, x.pm, x.a1, x.am, x.effects);
  auto e = dd.makeZeroDensityOperator(n);
  Mat rho(std::size_t{1} << n);
  rho.at(0, 0) = 1;
  for (const auto& o : circ.ops) {
    const auto op = toOperation(o);
    dd.applyOperationToDensity(e, dd::getDD(*op, dd));
    nf.applyNoiseEffects(e, op);
    rho = noisy(rho, o, x, n);
  }
  const auto q = static_cast<unsigned>(r.below(n));
  double p1 = 0;
  for (std::size_t j = 0; j < rho.n; ++j) {
    if (((j >> q) & 1U) != 0) {
      p1 += rho.at(j, j).real();
    }
  }
  std::mt19937_64 mt(r.next());
  const std::size_t shots = 600;
  std::size_t ones = 0;
  for (std::size_t s = 0; s < shots; ++s) {
    auto f = e;
    dd::dEdge::alignDensityEdge(f);
    dd.incRef(f);
    dd::dEdge::setDensityMatrixTrue(f);
    ones += dd.measureOneCollapsing(f, static_cast<dd::Qubit>(q), mt) == '1' ? 1 : 0;
    dd::dEdge::alignDensityEdge(f);
    dd.decRef(f);
  }
  const double f = static_cast<double>(ones) / static_cast<double>(shots);
  const double tol = std::sqrt(28.4 / (2. * static_cast<double>(shots)));
  c.check(std::abs(f - p1) < tol && (p1 > 1e-9 || ones == 0) && (p1 < 1 - 1e-9 || ones == shots), "density-measurement-frequency",
          cat("qubit ", q, ": ", f, " expected ", p1));
  c.count("measurements", shots);
}

// the reachable normalised states after one noisy operation and their probabilities
struct Traj {
  Vec v;
  double p;
};
std::vector<Traj> trajectories(const Vec& in, const Op& o, const Noise& x, unsigned n) {
  std::set<unsigned> s;
  used(o, s);
  Vec v = in;
  applyUnitary(v, o);
  std::vector<Vec> cur{v}; // unnormalised
  for (const auto q : s) {
    for (const auto e : x.effects) {
      std::vector<Vec> nx;
      for (const auto& k : krausOf(e, s.size() == 1 ? x.p1 : x.pm, s.size() == 1 ? x.a1 : x.am)) {
        for (const auto& w : cur) {
          Vec y = w;
          applyMatrix(y, k, {q}, {});
          if (norm2(y) > 1e-16) {
            nx.push_back(std::move(y));
          }
        }
      }
      cur = std::move(nx);
    }
  }
  std::vector<Traj> out;
  for (auto& w : cur) {
    const double p = std::min(1., norm2(w));
    for (auto& y : w) {
      y /= std::sqrt(p);
    }
    bool found = false;
    for (auto& t : out) {
      if (distPhase(t.v, w) < 1e-6) {
        t.p += p;
        found = true;
        break;
      }
    }
    if (!found) {
      out.push_back({w, p});
    }
  }
  return out;
}
void stochastic(Ctx& c) {
  auto& r = c.rng;
  const unsigned n = static_cast<unsigned>(r.range(1, 3));
  Noise x;
  double factor = 1;
  auto draw = [&] {
    x.effects = genEffects(r, false);
    x.p1 = r.chance(0.15) ? 0. : r.uniform(0, 0.6);
    x.a1 = r.chance(0.15) ? 0. : r.uniform(0, 0.6);
    const double mx = 1 / std::max({x.p1, x.a1, 0.1});
    factor = r.chance(0.2) ? 1. : r.uniform(0, std::min(mx, 3.)) * 0.999;
    x.pm = x.p1 * factor;
    x.am = x.a1 * factor;
  };
  auto cfg = randConfig(r);
  cfg.stochasticCacheOps = qc::OpType::OpTypeEnd;
  dd::Package dd(n, cfg);
  std::string log;
  // several noise models share a package
  for (std::size_t model = 0, models = r.range(1, 2); model < models; ++model) {
    draw();
    dd::StochasticNoiseFunctionality nf(dd, n, x.p1, x.a1, factor, x.effects);
    GenCfg g;
    g.n = n;
    g.gphase = g.barrier = 0;
    g.compound = 0.05;
    const auto o = genOp(r, g);
    std::set<unsigned> us;
    used(o, us);
    if (us.size() > 2 && x.effects.size() > 2) {
      x.effects = x.effects.substr(0, 2);
    }
    dd::StochasticNoiseFunctionality nf2(dd, n, x.p1, x.a1, factor, x.effects);
    auto& used_nf = us.size() > 2 ? nf2 : nf;
    const auto in = randState(r, n);
    log += cat("| ", str(x), " factor ", factor, " ", str(o), " on ", vecStr(in));
    announce(c, "stochastic " + log);
    const auto ts = trajectories(in, o, x, n);
    const auto op = toOperation(o);
    const auto opDD = dd::getDD(*op, dd);
    dd.incRef(opDD);
    auto start = dd.makeStateFromVector(dd::CVec(in.begin(), in.end()));
    std::mt19937_64 mt(r.next());
    std::vector<std::size_t> hits(ts.size());
    const std::size_t shots = c.thorough ? 6000 : 1500;
    bool ok = true;
    for (std::size_t s = 0; s < shots && ok; ++s) {
      auto st = start;
      dd.incRef(st);
      used_nf.applyNoiseOperation(op->getUsedQubits(), opDD, st, mt);
      const auto v = toVec(st);
      ok = c.check(std::abs(norm2(v) - 1) < 1e-8, "trajectory-norm", cat(norm2(v)));
      std::size_t best = ts.size();
      for (std::size_t t = 0; ok && t < ts.size(); ++t) {
        if (distPhase(v, ts[t].v) < 1e-5) {
          best = t;
          break;
        }
      }
      ok = ok && c.check(best < ts.size(), "unreachable-trajectory", vecStr(v));
      if (best < ts.size()) {
        ++hits[best];
      }
      dd.decRef(st);
    }
    c.count("trajectories", shots);
    c.count("reachable-trajectories", ts.size());
    double total = 0;
    for (const auto& t : ts) {
      total += t.p;
    }
    if (!(std::abs(total - 1) < 1e-6)) {
      c.fail("oracle", cat("weights sum to ", total));
    }
    for (std::size_t t = 0; ok && t < ts.size(); ++t) {
      const double p = std::min(1., ts[t].p);
      const double m = static_cast<double>(shots);
      const double f = static_cast<double>(hits[t]) / m;
      // Bernstein bound at 1e-13
      const double L = 31.;
      const double tol = std::sqrt(2 * p * (1 - p) * L / m) + 2 * L / (3 * m) + 1e-9;
      c.check(std::abs(f - p) < tol, "trajectory-frequency", cat("frequency ", f, " expected ", p));
    }
    dd.decRef(start);
    dd.decRef(opDD);
    if (!ok) {
      return;
    }
  }
}
// the average over the trajectories of a circuit is the noisy density matrix
void average(Ctx& c) {
  auto& r = c.rng;
  const unsigned n = static_cast<unsigned>(r.range(1, 4));
  Noise x;
  x.effects = genEffects(r, false);
  x.p1 = r.uniform(0, 0.3);
  x.a1 = r.uniform(0, 0.3);
  const double factor = r.uniform(0.5, 3);
  x.pm = x.p1 * factor;
  x.am = x.a1 * factor;
  GenCfg g;
  g.n = n;
  g.gphase = g.barrier = 0;
  g.nops = r.range(2, 8);
  const auto circ = genCirc(r, g);
  announce(c, cat("average ", str(x), " factor ", factor, " ", str(circ)));
  auto cfg = randConfig(r);
  cfg.stochasticCacheOps = qc::OpType::OpTypeEnd;
  dd::Package dd(n, cfg);
  dd::StochasticNoiseFunctionality nf(dd, n, x.p1, x.a1, factor, x.effects);
  Mat rho(std::size_t{1} << n);
  rho.at(0, 0) = 1;
  std::vector<std::unique_ptr<qc::Operation>> ops;
  for (const auto& o : circ.ops) {
    rho = noisy(rho, o, x, n);
    ops.push_back(toOperation(o));
  }
  const std::size_t shots = c.thorough ? 4000 : 500;
  std::vector<double> pr(rho.n);
  std::mt19937_64 mt(r.next());
  for (std::size_t s = 0; s < shots; ++s) {
    auto st = dd.makeZeroState(n);
    for (const auto& op : ops) {
      nf.applyNoiseOperation(op->getUsedQubits(), dd::getDD(*op, dd), st, mt);
    }
    const auto v = toVec(st);
    if (!c.check(std::abs(norm2(v) - 1) < 1e-7, "trajectory-norm", cat(norm2(v)))) {
      return;
    }
    for (std::size_t i = 0; i < v.size(); ++i) {
      pr[i] += std::norm(v[i]) / static_cast<double>(shots);
    }
    dd.decRef(st);
    if (r.chance(0.05)) {
      dd.garbageCollect(r.chance(0.5));
    }
  }
  const double tol = std::sqrt(31. / (2. * static_cast<double>(shots)));
  for (std::size_t i = 0; i < pr.size(); ++i) {
    c.check(std::abs(pr[i] - rho.at(i, i).real()) < tol, "average-distribution", cat(i, ": ", pr[i], " expected ", rho.at(i, i).real()));
  }
  c.count("trajectories", shots);
}
void arguments(Ctx& c) {
  auto& r = c.rng;
  dd::Package dd(1, randConfig(r));
  const double p = r.uniform(-0.5, 1.5);
  const double a = r.uniform(-0.5, 1.5);
  const double f = r.uniform(0, 2);
  announce(c, cat("arguments ", p, " ", a, " ", f));
  const bool bad = p < 0 || a < 0 || p * f > 1 || a * f > 1;
  auto throws = [](const std::function<void()>& fn) {
    try {
      fn();
    } catch (const std::exception&) {
      return true;
    }
    return false;
  };
  c.check(throws([&] { dd::StochasticNoiseFunctionality nf(dd, 1, p, a, f, "APD"); }) == bad, "stochastic-arguments");
  const bool bad2 = p < 0 || a < 0 || p > 1 || a > 1;
  c.check(throws([&] { dd::DeterministicNoiseFunctionality nf(dd, 1, p, 0.1, a, 0.1, "APD"); }) == bad2, "deterministic-arguments");
  c.check(throws([&] { dd::DeterministicNoiseFunctionality nf(dd, 1, 0.1, p, 0.1, a, "APD"); }) == bad2, "deterministic-arguments");
  std::string e;
  for (std::size_t i = 0; i < 3; ++i) {
    e += "APDIapdXZ"[r.below(9)];
  }
  const bool unknown = e.find_first_not_of("APDI") != std::string::npos;
  c.check(throws([&] { dd::DeterministicNoiseFunctionality nf(dd, 1, 0.1, 0.1, 0.1, 0.1, e); }) == unknown, "unknown-effects", e);
  c.check(throws([&] { dd::StochasticNoiseFunctionality nf(dd, 1, 0.1, 0.1, 1, e); }) == unknown, "unknown-effects", e);
}
// the maximally mixed top qubit is a skipped level
void probeKeys(Ctx& c) {
  announce(c, "probability keys of a diagram with a skipped top level");
  dd::DDPackageConfig cfg = dd::DENSITY_MATRIX_SIMULATOR_DD_PACKAGE_CONFIG;
  dd::Package dd(2, cfg);
  dd::DeterministicNoiseFunctionality nf(dd, 2, 1., 1., 0, 0, "D");
  auto e = dd.makeZeroDensityOperator(2);
  const std::unique_ptr<qc::Operation> op = std::make_unique<qc::StandardOperation>(1, qc::H);
  dd.applyOperationToDensity(e, dd::getDD(*op, dd));
  nf.applyNoiseEffects(e, op);
  const auto k = e.getSparseProbabilityVectorStrKeys(2);
  c.check(k.size() == 2 && k.count("00") == 1 && k.count("10") == 1, "skipped-top-level-keys", cat(k.size(), " keys"));
}
} // namespace

int main(int argc, char** argv) {
  return runMain(argc, argv, "P07",
                 {{"deterministic", 3000, 12000, [](Ctx& c) { deterministic(c, static_cast<unsigned>(c.rng.range(1, 4)), c.rng.range(1, 25)); }},
                  {"deterministic-5", 200, 800, [](Ctx& c) { deterministic(c, 5, c.rng.range(1, 20)); }},
                  {"density-measurement", 300, 800, measureFrequencies},
                  {"stochastic", 600, 3000, stochastic},
                  {"average", 300, 1000, average},
                  {"arguments", 300, 3000, arguments},
                  {"probe-keys", 1, 1, probeKeys, true}});
}
