// P16: the provided algorithm generators build circuits that compute what they are named after.
#include "algorithms/BernsteinVazirani.hpp"
#include "algorithms/GHZState.hpp"
#include "algorithms/Grover.hpp"
#include "algorithms/QFT.hpp"
#include "algorithms/QPE.hpp"
#include "algorithms/RandomCliffordCircuit.hpp"
#include "algorithms/StatePreparation.hpp"
#include "algorithms/WState.hpp"
#include "common/ddutil.hpp"
using namespace vf;
namespace {
constexpr double TOL = 1e-7;

using Dist = std::vector<double>;
std::size_t value(const std::vector<bool>& bits) {
  std::size_t v = 0;
  for (std::size_t i = 0; i < bits.size(); ++i) {
    v |= (bits[i] ? std::size_t{1} : 0) << i;
  }
  return v;
}
Dist outcomes(const Circ& c, const Vec& in) {
  Dist d(std::size_t{1} << c.nc, 0.);
  for (const auto& [bits, p] : outcomeDistribution(runBranches(c, in))) {
    d[value(bits)] += p;
  }
  return d;
}
Dist outcomes(const qc::QuantumComputation& q) {
  const auto c = lift(q);
  return outcomes(c, basis(c.n, 0));
}
double distDist(const Dist& a, const Dist& b) {
  if (a.size() != b.size()) {
    return 1e9;
  }
  double d = 0;
  for (std::size_t i = 0; i < a.size(); ++i) {
    d = std::max(d, std::abs(a[i] - b[i]));
  }
  return d;
}
std::string distStr(const Dist& d) {
  std::string s;
  for (std::size_t i = 0; i < d.size(); ++i) {
    if (d[i] > 1e-9) {
      s += cat(i, ":", d[i], " ");
    }
  }
  return s;
}
// what every generated circuit has in common
void wellFormed(Ctx& c, const qc::QuantumComputation& q, const std::string& name) {
  c.check(q.getName() == name, "name", cat("'", q.getName(), "' instead of '", name, "'"));
  const auto n = q.getNqubits();
  std::set<unsigned> logical;
  for (const auto& [p, l] : q.initialLayout) {
    c.check(p < n && l < n, "layout-out-of-range", cat(p, "->", l));
    logical.insert(l);
  }
  c.check(q.initialLayout.size() == n && logical.size() == n, "layout-not-a-permutation");
  std::set<unsigned> outs;
  for (const auto& [p, l] : q.outputPermutation) {
    c.check(p < n, "output-out-of-range", cat(p, "->", l));
    c.check(outs.insert(l).second, "output-not-injective", cat(p, "->", l));
  }
  const std::function<void(const qc::Operation&)> walk = [&](const qc::Operation& op) {
    if (op.isCompoundOperation()) {
      for (const auto& x : dynamic_cast<const qc::CompoundOperation&>(op)) {
        walk(*x);
      }
      return;
    }
    for (const auto u : op.getUsedQubits()) {
      c.check(u < n, "qubit-out-of-range", cat(u));
    }
    if (op.getType() == qc::Measure) {
      for (const auto b : dynamic_cast<const qc::NonUnitaryOperation&>(op).getClassics()) {
        c.check(b < q.getNcbits(), "bit-out-of-range", cat(b));
      }
    }
  };
  for (const auto& op : q) {
    walk(*op);
  }
}
// an explicit seed determines the circuit
template <class F> void reproducible(Ctx& c, const F& make, std::uint64_t seed) {
  const auto a = make(seed);
  const auto b = make(seed);
  c.check(a == b && a.toQASM() == b.toQASM(), "seed-not-reproducible", cat("seed ", seed));
}

void entangled(Ctx& c) {
  auto& r = c.rng;
  const bool w = r.chance(0.5);
  const auto n = static_cast<unsigned>(r.chance(0.75) ? r.range(1, 9) : r.range(10, 60));
  announce(c, cat(w ? "W " : "GHZ ", n));
  const auto q = w ? qc::createWState(n) : qc::createGHZState(n);
  wellFormed(c, q, cat(w ? "wstate_" : "ghz_", n));
  c.check(q.getNqubits() == n && q.getNcbits() == n, "size");
  if (n <= 9) {
    Vec exp(std::size_t{1} << n);
    if (w) {
      for (unsigned i = 0; i < n; ++i) {
        exp[std::size_t{1} << i] = 1 / std::sqrt(n);
      }
    } else {
      exp.front() += n == 0 ? 1 : std::sqrt(0.5);
      exp.back() += std::sqrt(0.5);
    }
    const auto got = runUnitary(lift(q), basis(n, 0));
    c.check(distPhase(got, exp) < TOL, "entangled-state", cat(vecStr(got), " instead of ", vecStr(exp)));
    return;
  }
  dd::Package dd(n);
  auto in = dd.makeZeroState(n);
  const auto e = dd::simulate(q, in, dd);
  double sum = 0;
  if (w) {
    for (unsigned i = 0; i < n; ++i) {
      const auto a = e.getValueByIndex(std::size_t{1} << i);
      sum += std::norm(a);
      c.check(std::abs(std::abs(a) - 1 / std::sqrt(n)) < 1e-6, "entangled-amplitude", cat(i, ": ", a.real(), ",", a.imag()));
      c.check(std::abs(a - e.getValueByIndex(1)) < 1e-6, "entangled-relative-phase", cat(i));
    }
  } else {
    const auto a = e.getValueByIndex(0);
    const auto b = e.getValueByIndex((std::size_t{1} << n) - 1);
    sum = std::norm(a) + std::norm(b);
    c.check(std::abs(a - b) < 1e-6 && std::abs(std::abs(a) - std::sqrt(0.5)) < 1e-6, "entangled-amplitude", cat(a.real(), " ", b.real()));
  }
  c.check(std::abs(sum - 1) < 1e-6, "entangled-other-amplitudes", cat(sum));
}

void bernsteinVazirani(Ctx& c) {
  auto& r = c.rng;
  const bool iterative = r.chance(0.5);
  const bool big = r.chance(0.3);
  const int how = static_cast<int>(r.below(3)); // bits only, bits and size, seed
  auto n = static_cast<unsigned>(big ? r.range(7, iterative ? 300 : 60) : r.range(1, 6));
  qc::BVBitString s;
  for (unsigned i = 0; i < n; ++i) {
    s.set(i, r.chance(0.5));
  }
  if (r.chance(0.1)) {
    s.reset();
  }
  if (how == 0) {
    // the size follows from the leading one
    while (n > 1 && !s.test(n - 1)) {
      --n;
    }
  } else if (how == 1 && r.chance(0.2)) {
    s.set(n + r.below(100)); // bits beyond the size do not matter
  }
  const auto seed = r.range(1, 1U << 30U);
  announce(c, cat(iterative ? "iterative " : "", "BV n=", n, " how=", how, " seed=", seed, " s=", s.to_string().substr(4096 - n)));
  auto make = [&](std::uint64_t sd) {
    return iterative ? (how == 0   ? qc::createIterativeBernsteinVazirani(s)
                        : how == 1 ? qc::createIterativeBernsteinVazirani(s, n)
                                   : qc::createIterativeBernsteinVazirani(n, sd))
                     : (how == 0   ? qc::createBernsteinVazirani(s)
                        : how == 1 ? qc::createBernsteinVazirani(s, n)
                                   : qc::createBernsteinVazirani(n, sd));
  };
  const auto q = make(seed);
  reproducible(c, make, seed);
  const std::string prefix = iterative ? "iterative_bv_" : "bv_";
  auto hidden = s.to_string().substr(4096 - n);
  if (how == 2) {
    hidden = q.getName().substr(prefix.size());
    if (n >= 64) {
      c.check(make(seed + 1).getName() != q.getName(), "seeds-give-the-same-string");
    }
    if (r.chance(0.3)) {
      const auto f = make(0);
      c.check(f.getName().size() == q.getName().size(), "unseeded");
    }
  }
  wellFormed(c, q, prefix + hidden);
  c.check(hidden.size() == n && q.getNcbits() == n && q.getNqubits() == (iterative ? 2 : n + 1), "size");
  if (!big) {
    Dist exp(std::size_t{1} << n, 0.);
    exp[std::stoull(hidden, nullptr, 2)] = 1;
    const auto got = outcomes(q);
    c.check(distDist(got, exp) < TOL, "hidden-string-not-found", cat(distStr(got), " instead of ", hidden));
    return;
  }
  const auto shots = dd::sample(q, iterative ? 3 : 20, seed);
  c.check(shots.size() == 1 && shots.begin()->first == hidden, "hidden-string-not-sampled", cat(shots.size(), " ", shots.begin()->first));
}

Dist qpeDistribution(double lambda, unsigned n) {
  const std::size_t N = std::size_t{1} << n;
  Dist d(N);
  for (std::size_t k = 0; k < N; ++k) {
    C a = 0;
    for (std::size_t j = 0; j < N; ++j) {
      a += std::polar(1.0 / static_cast<double>(N), qc::PI * std::remainder(static_cast<double>(j) * (std::remainder(lambda, 2.0) - 2.0 * static_cast<double>(k) / static_cast<double>(N)), 2.0));
    }
    d[k] = std::norm(a);
  }
  return d;
}
void phaseEstimation(Ctx& c) {
  auto& r = c.rng;
  const bool iterative = r.chance(0.5);
  const auto n = static_cast<unsigned>(r.range(1, 6));
  const int how = static_cast<int>(r.below(3)); // angle, exact, inexact
  double lambda = 0;
  switch (r.below(4)) {
  case 0:
    lambda = static_cast<double>(r.below(2U << n)) / static_cast<double>(std::size_t{1} << (n - 1));
    break;
  case 1:
    lambda = r.uniform(-5, 5);
    break;
  case 2:
    lambda = randAngle(r);
    break;
  default:
    lambda = r.uniform(0, 2);
  }
  const auto seed = r.range(1, 1U << 30U);
  announce(c, cat(iterative ? "iterative " : "", "QPE n=", n, " how=", how, " lambda=", lambda, " seed=", seed));
  auto make = [&](std::uint64_t sd) {
    return iterative ? (how == 0 ? qc::createIterativeQPE(lambda, n) : qc::createIterativeQPE(n, how == 1, sd))
                     : (how == 0 ? qc::createQPE(lambda, n) : qc::createQPE(n, how == 1, sd));
  };
  const auto q = make(r.chance(0.1) ? 0 : seed);
  reproducible(c, make, seed);
  if (how != 0) {
    // the angle is part of the name
    const auto& name = q.getName();
    lambda = std::stod(name.substr(name.rfind('_') + 1));
    const auto grid = lambda * static_cast<double>(std::size_t{1} << (how == 1 ? n - 1 : n));
    c.check(std::abs(grid - std::round(grid)) < 1e-9 && lambda > 0 && lambda < 2, "phase-not-representable", cat(lambda));
    c.check(how == 1 || std::fmod(std::round(grid), 2.) == 1, "phase-not-inexact", cat(lambda));
  }
  std::ostringstream name;
  name.precision(15);
  name << (iterative ? "iterative_" : "") << "qpe_" << n << "_" << lambda;
  wellFormed(c, q, name.str());
  c.check(q.getNcbits() == n && q.getNqubits() == (iterative ? 2 : n + 1), "size");
  const auto got = outcomes(q);
  const auto exp = qpeDistribution(lambda, n);
  c.check(distDist(got, exp) < 1e-6, "phase-estimate", cat(distStr(got), " instead of ", distStr(exp)));
  if (how == 1) {
    c.check(*std::max_element(got.begin(), got.end()) > 1 - 1e-6, "exact-phase-not-certain", distStr(got));
  }
}
void phaseEstimationBig(Ctx& c) {
  auto& r = c.rng;
  const bool iterative = r.chance(0.5);
  const auto n = static_cast<unsigned>(r.range(7, iterative ? 40 : 14));
  const auto seed = r.range(1, 1U << 30U);
  const auto q = iterative ? qc::createIterativeQPE(n, true, seed) : qc::createQPE(n, true, seed);
  announce(c, cat(iterative ? "iterative " : "", "exact QPE n=", n, " ", q.getName()));
  // the global phase holds the angle itself
  const double lambda = q.getGlobalPhase();
  const auto theta = static_cast<std::uint64_t>(std::llround(lambda * static_cast<double>(std::uint64_t{1} << (n - 1))));
  std::string exp;
  for (unsigned i = n; i-- > 0;) {
    exp += ((theta >> i) & 1U) != 0 ? '1' : '0';
  }
  const auto shots = dd::sample(q, 3, seed);
  c.check(shots.size() == 1 && shots.begin()->first == exp, "exact-phase-not-sampled", cat(shots.begin()->first, " instead of ", exp));
}

// the first qubit is the most significant one, in the input and in the output
Mat dft(unsigned n) {
  const std::size_t N = std::size_t{1} << n;
  Mat m(N);
  auto rev = [&](std::size_t x) {
    std::size_t y = 0;
    for (unsigned b = 0; b < n; ++b) {
      y |= ((x >> b) & 1U) << (n - 1 - b);
    }
    return y;
  };
  for (std::size_t i = 0; i < N; ++i) {
    for (std::size_t j = 0; j < N; ++j) {
      m.at(i, j) = std::polar(1 / std::sqrt(N), 2 * qc::PI * static_cast<double>((rev(i) * rev(j)) % N) / static_cast<double>(N));
    }
  }
  return m;
}
void fourier(Ctx& c) {
  auto& r = c.rng;
  const auto n = static_cast<unsigned>(r.range(0, 6));
  const int kind = static_cast<int>(r.below(3)); // unitary, measured, iterative
  const auto in = randState(r, n);
  announce(c, cat("QFT n=", n, " kind=", kind, " ", vecStr(in)));
  const auto q = kind == 2 ? qc::createIterativeQFT(n) : qc::createQFT(n, kind == 1);
  wellFormed(c, q, cat(kind == 2 ? "iterative_" : "", "qft_", n));
  c.check(q.getNqubits() == (kind == 2 ? std::min(n, 1U) : n) && q.getNcbits() == n, "size");
  if (n == 0) {
    c.check(q.empty(), "empty-transform-has-operations");
    return;
  }
  auto ci = lift(q);
  const auto m = dft(n);
  Vec exp(in.size());
  for (std::size_t i = 0; i < in.size(); ++i) {
    for (std::size_t j = 0; j < in.size(); ++j) {
      exp[i] += m.at(i, j) * in[j];
    }
  }
  if (kind == 0) {
    const auto got = runUnitary(ci, in);
    c.check(dist(got, exp) < TOL, "fourier-transform", cat(vecStr(got), " instead of ", vecStr(exp)));
    return;
  }
  if (kind == 2) {
    // every reset of the single qubit brings in the next input qubit instead of a zero
    Circ wide;
    wide.n = n;
    wide.nc = ci.nc;
    wide.gphase = ci.gphase;
    unsigned cur = 0;
    for (auto o : ci.ops) {
      if (o.k == Op::Reset) {
        ++cur;
        continue;
      }
      if (!c.check(cur < n, "too-many-resets")) {
        return;
      }
      remap(o, [&](unsigned) { return cur; });
      wide.ops.push_back(o);
    }
    ci = wide;
  }
  Dist d(exp.size());
  for (std::size_t i = 0; i < exp.size(); ++i) {
    d[i] = std::norm(exp[i]);
  }
  const auto got = outcomes(ci, in);
  c.check(distDist(got, d) < TOL, "fourier-outcomes", cat(distStr(got), " instead of ", distStr(d)));
}

void grover(Ctx& c) {
  auto& r = c.rng;
  const auto n = static_cast<unsigned>(r.chance(0.9) ? r.range(1, 6) : r.range(7, 9));
  const bool random = r.chance(0.3);
  const auto seed = r.range(1, 1U << 30U);
  qc::GroverBitString t;
  for (unsigned i = 0; i < n; ++i) {
    t.set(i, r.chance(0.5));
  }
  announce(c, cat("Grover n=", n, random ? " random " : " ", t.to_string().substr(128 - n), " seed=", seed));
  auto make = [&](std::uint64_t sd) { return random ? qc::createGrover(n, sd) : qc::createGrover(n, t); };
  const auto q = make(seed);
  reproducible(c, make, seed);
  auto target = t.to_string().substr(128 - n);
  if (random) {
    target = q.getName().substr(q.getName().rfind('_') + 1);
    c.check(make(0).getName().size() == q.getName().size(), "unseeded");
  }
  wellFormed(c, q, cat("grover_", n, "_", target));
  c.check(target.size() == n && q.getNcbits() == n && q.getNqubits() == n + 1, "size");
  const double N = std::pow(2., n);
  const double k = n <= 2 ? 1 : std::round(qc::PI_4 * std::sqrt(N));
  const double p = std::pow(std::sin((2 * k + 1) * std::asin(1 / std::sqrt(N))), 2);
  Dist exp(std::size_t{1} << n, (1 - p) / (N - 1));
  exp[std::stoull(target, nullptr, 2)] = p;
  const auto got = outcomes(q);
  c.check(distDist(got, exp) < 1e-6, "search-outcomes", cat(distStr(got), " instead of ", distStr(exp)));
}
void groverParts(Ctx& c) {
  auto& r = c.rng;
  const auto n = static_cast<unsigned>(r.range(1, 5)); // data qubits
  qc::GroverBitString t;
  for (unsigned i = 0; i < n; ++i) {
    t.set(i, r.chance(0.5));
  }
  announce(c, cat("Grover parts n=", n, " ", t.to_string().substr(128 - n)));
  const std::size_t N = std::size_t{1} << n;
  {
    qc::QuantumComputation q(n + 1);
    qc::appendGroverOracle(q, t);
    const auto u = unitaryOf(lift(q));
    Mat exp(2 * N);
    for (std::size_t i = 0; i < 2 * N; ++i) {
      exp.at(i, i) = i == N + t.to_ullong() ? -1 : 1;
    }
    c.check(dist(u, exp) < TOL, "search-oracle");
  }
  {
    qc::QuantumComputation q(n + 1);
    qc::appendGroverDiffusion(q);
    const auto u = unitaryOf(lift(q));
    Mat exp(2 * N);
    for (std::size_t f = 0; f < 2; ++f) {
      for (std::size_t i = 0; i < N; ++i) {
        for (std::size_t j = 0; j < N; ++j) {
          exp.at(f * N + i, f * N + j) = 2. / static_cast<double>(N) - (i == j ? 1 : 0);
        }
      }
    }
    c.check(distPhase(u.a, exp.a) < TOL, "search-diffusion");
  }
  {
    qc::QuantumComputation q(n + 1);
    qc::appendGroverInitialization(q);
    const auto v = runUnitary(lift(q), basis(n + 1, 0));
    Vec exp(2 * N);
    for (std::size_t i = 0; i < N; ++i) {
      exp[N + i] = 1 / std::sqrt(N);
    }
    c.check(distPhase(v, exp) < TOL, "search-initialisation");
  }
  const auto m = static_cast<unsigned>(r.range(0, 60));
  const double k = m <= 2 ? 1 : qc::PI_4 * std::pow(2., m / 2.);
  c.check(std::abs(static_cast<double>(qc::computeNumberOfIterations(m)) - k) < 0.5 + 1e-9 * k, "number-of-iterations", cat(m));
}

void statePreparation(Ctx& c) {
  auto& r = c.rng;
  const auto n = static_cast<unsigned>(r.range(0, 6));
  auto v = randState(r, n);
  const double eps = r.chance(0.7) ? 1e-10 : std::pow(10., r.uniform(-12, -4));
  switch (r.below(6)) {
  case 0: // real amplitudes, possibly negative
    for (auto& x : v) {
      x = x.real() + x.imag();
    }
    break;
  case 1: // magnitudes only
    for (auto& x : v) {
      x = std::abs(x);
    }
    break;
  case 2: // equal magnitudes, random phases
    for (auto& x : v) {
      x = std::polar(1., randAngle(r));
    }
    break;
  case 3: // some amplitudes vanish
    for (auto& x : v) {
      if (r.chance(0.5)) {
        x = 0;
      }
    }
    break;
  case 4: // some amplitudes are small
    for (auto& x : v) {
      if (r.chance(0.3)) {
        x *= std::pow(10., r.uniform(-14, -1));
      }
    }
    break;
  default:
    break;
  }
  double s = std::sqrt(norm2(v));
  if (s < 1e-3) {
    v.assign(v.size(), 0);
    v[r.below(v.size())] = std::polar(1., randAngle(r));
    s = 1;
  }
  for (auto& x : v) {
    x /= s;
  }
  announce(c, cat("state preparation n=", n, " eps=", eps, " ", vecStr(v)));
  if (r.chance(0.05)) {
    auto bad = v;
    if (r.chance(0.5)) {
      for (auto& x : bad) {
        x *= 1 + (r.chance(0.5) ? 1e-3 : -1e-3);
      }
    } else {
      bad.resize(bad.size() + (v.size() < 3 ? (v.size() == 1 ? 2 : 1) : r.range(1, v.size() - 1)));
    }
    bool thrown = false;
    try {
      const auto q = qc::createStatePreparationCircuit(bad, 1e-10);
    } catch (const std::invalid_argument&) {
      thrown = true;
    }
    c.check(thrown, "invalid-amplitudes-accepted", cat(bad.size()));
    thrown = false;
    try {
      const auto q = qc::createStatePreparationCircuit({}, eps);
    } catch (const std::invalid_argument&) {
      thrown = true;
    }
    c.check(thrown, "no-amplitudes-accepted");
  }
  const auto q = qc::createStatePreparationCircuit(v, eps);
  wellFormed(c, q, q.getName());
  c.check(q.getNqubits() == n, "size");
  const auto got = runUnitary(lift(q), basis(n, 0));
  const double tol = 1e-6 + 8 * eps * std::sqrt(static_cast<double>(v.size())) * (n + 1);
  const double d = dist(got, v);
  c.check(d < tol, "prepared-state", cat(d, ": ", vecStr(got), " instead of ", vecStr(v)));
  if (r.chance(0.2) && n > 0) {
    dd::Package dd(n);
    auto in = dd.makeZeroState(n);
    const auto e = dd::simulate(q, in, dd);
    c.check(dist(toVec(e), v) < tol + 1e-6, "prepared-state-simulated", vecStr(toVec(e)));
  }
}

bool isPauli(const Mat& m) {
  // one entry of modulus 1 per row, in the pattern of a bit flip, with phases a product of signs
  const std::size_t N = m.n;
  std::size_t flip = N;
  for (std::size_t j = 0; j < N; ++j) {
    if (std::abs(m.at(0, j)) > 0.5) {
      flip = j;
    }
  }
  if (flip == N) {
    return false;
  }
  const C base = m.at(0, flip);
  for (std::size_t i = 0; i < N; ++i) {
    // the sign is multiplicative in the bits of the row
    C exp = base;
    for (std::size_t b = 1; b < N; b <<= 1U) {
      if ((i & b) != 0) {
        exp *= m.at(b, b ^ flip) / base;
      }
    }
    for (std::size_t j = 0; j < N; ++j) {
      const C e = j == (i ^ flip) ? exp : C{0};
      if (std::abs(m.at(i, j) - e) > 1e-6) {
        return false;
      }
    }
  }
  return true;
}
void clifford(Ctx& c) {
  auto& r = c.rng;
  const auto n = static_cast<unsigned>(r.range(1, 4));
  const auto depth = r.range(0, 6);
  const auto seed = r.range(1, 1U << 30U);
  announce(c, cat("random Clifford n=", n, " depth=", depth, " seed=", seed));
  auto make = [&](std::uint64_t sd) { return qc::createRandomCliffordCircuit(n, depth, sd); };
  const auto q = make(seed);
  reproducible(c, make, seed);
  wellFormed(c, q, cat("random_clifford_", n, "_", depth, "_", seed));
  c.check(q.getNqubits() == n && q.getNcbits() == n, "size");
  const auto u = unitaryOf(lift(q));
  const auto ud = dagger(u);
  for (unsigned k = 0; k < n; ++k) {
    for (const char p : {'X', 'Z'}) {
      Mat m(1);
      m.at(0, 0) = 1;
      for (unsigned j = n; j-- > 0;) {
        m = kron(m, j == k ? pauli(p) : pauli('I'));
      }
      c.check(isPauli(u * m * ud), "not-a-clifford", cat(p, k));
    }
  }
  c.check(q.empty() == (depth == 0 || (n == 3 && false)), "depth", cat(q.size()));
}
// all elements of the group are reached
void cliffordGroup(Ctx& c) {
  const unsigned n = c.local == 0 ? 1 : 2;
  announce(c, cat("all random Cliffords on ", n, " qubits"));
  const std::size_t total = n == 1 ? 24 : 11520;
  std::set<std::string> seen;
  std::size_t seeds = 0;
  // drawing 30000 of 11520 elements uniformly misses about 850 (standard deviation 25)
  const std::size_t draws = n == 1 ? 500 : c.local == 1 ? 30000 : 140000;
  const std::size_t expected = c.local == 1 ? 10400 : total;
  for (; seeds < draws && seen.size() < total; ++seeds) {
    const auto q = qc::createRandomCliffordCircuit(n, 1, seeds + 1);
    auto u = unitaryOf(lift(q));
    C ph = 0;
    for (const auto& x : u.a) {
      if (std::abs(x) > 0.1) {
        ph = std::abs(x) / x;
        break;
      }
    }
    std::string k;
    for (const auto& x : u.a) {
      k += static_cast<char>(std::lround((x * ph).real() * 8));
      k += static_cast<char>(std::lround((x * ph).imag() * 8));
    }
    seen.insert(k);
  }
  c.count("distinct Cliffords", seen.size());
  c.check(seen.size() >= expected && seen.size() <= total, "group-not-covered", cat(seen.size(), " of ", total, " elements in ", seeds, " circuits"));
}
} // namespace

int main(int argc, char** argv) {
  return runMain(argc, argv, "P16",
                 {{"entangled", 1500, 12000, entangled},
                  {"bernstein-vazirani", 6000, 60000, bernsteinVazirani},
                  {"phase-estimation", 12000, 120000, phaseEstimation},
                  {"phase-estimation-big", 300, 3000, phaseEstimationBig},
                  {"fourier", 12000, 120000, fourier},
                  {"grover", 2000, 20000, grover},
                  {"grover-parts", 1500, 10000, groverParts},
                  {"state-preparation", 2500, 25000, statePreparation},
                  {"clifford", 8000, 60000, clifford},
                  {"clifford-group", 2, 3, cliffordGroup, true}});
}
