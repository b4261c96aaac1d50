// P05: measurement, reset and sampling follow the Born rule.
#include "common/ddutil.hpp"
#include "common/sparse.hpp"
using namespace vf;
namespace {
constexpr double TOL = 1e-7;

dd::VectorDD makeState(dd::Package& dd, const Vec& v) { return dd.makeStateFromVector(dd::CVec(v.begin(), v.end())); }
double probOne(const Vec& v, unsigned q) {
  double p = 0;
  for (std::size_t i = 0; i < v.size(); ++i) {
    if (((i >> q) & 1U) != 0) {
      p += std::norm(v[i]);
    }
  }
  return p;
}
Vec projected(Vec v, unsigned q, bool one) {
  project(v, q, one);
  const double s = std::sqrt(norm2(v));
  for (auto& x : v) {
    x /= s;
  }
  return v;
}
// a state reached by gates (structured) or given by amplitudes
Vec randomState(Rng& r, unsigned n) {
  if (r.chance(0.5)) {
    return randState(r, n);
  }
  GenCfg g;
  g.n = n;
  g.nops = r.range(1, 15);
  return runUnitary(genCirc(r, g), basis(n, r.below(std::size_t{1} << n)));
}
void states(Ctx& c) {
  auto& r = c.rng;
  const auto n = static_cast<unsigned>(r.range(1, 7));
  dd::Package dd(n, randConfig(r));
  auto v = randomState(r, n);
  announce(c, cat("n=", n, " ", vecStr(v)));
  auto e = makeState(dd, v);
  // a second handle keeps the original referenced
  dd.incRef(e);
  const auto orig = e;
  std::mt19937_64 mt(r.next());
  for (unsigned q = 0; q < n; ++q) {
    const auto [p0, p1] = dd.determineMeasurementProbabilities(e, static_cast<dd::Qubit>(q));
    const double ref = probOne(v, q);
    c.check(std::abs(p1 - ref) < TOL && std::abs(p0 - (1 - ref)) < TOL, "probabilities",
            cat("qubit ", q, " got ", p0, ",", p1, " expected ", 1 - ref, ",", ref));
    for (int b = 0; b < 2; ++b) {
      const double pb = b ? ref : 1 - ref;
      if (pb < 1e-4) {
        continue;
      }
      auto x = e;
      dd.incRef(x);
      dd.performCollapsingMeasurement(x, static_cast<dd::Qubit>(q), b ? p1 : p0, b == 0);
      const auto exp = projected(v, q, b == 1);
      c.check(dist(toVec(x), exp) < 1e-6, "forced-outcome-post-state", cat("qubit ", q, " outcome ", b, " got ", vecStr(toVec(x)), " expected ", vecStr(exp)));
      const auto [r0, r1] = dd.determineMeasurementProbabilities(x, static_cast<dd::Qubit>(q));
      c.check(std::abs((b ? r1 : r0) - 1) < TOL, "repeated-outcome-not-certain");
      dd.decRef(x);
    }
  }
  // a full sequence of collapsing measurements in random order
  auto cur = v;
  const auto order = r.perm(n);
  auto x = e;
  std::string bits(n, '0');
  for (const auto q : order) {
    const double p1 = probOne(cur, static_cast<unsigned>(q));
    const auto res = dd.measureOneCollapsing(x, static_cast<dd::Qubit>(q), mt);
    const double p = res == '1' ? p1 : 1 - p1;
    if (!c.check((res == '0' || res == '1') && p > 1e-9, "impossible-outcome", cat("qubit ", q, " outcome ", res, " has probability ", p))) {
      return;
    }
    bits[n - 1 - q] = res;
    if (p < 1e-5) {
      return;
    }
    cur = projected(cur, static_cast<unsigned>(q), res == '1');
    c.check(dist(toVec(x), cur) < 1e-6, "collapse-post-state", cat("qubit ", q, " outcome ", res, " got ", vecStr(toVec(x)), " expected ", vecStr(cur)));
    c.count("collapses");
    if (r.chance(0.2)) {
      dd.garbageCollect(true);
    }
  }
  c.check(dd.measureAll(x, false, mt) == bits, "measure-all-after-collapse", bits);
  // measuring everything at once
  auto y = orig;
  dd.incRef(y);
  const auto before = toVec(y);
  const auto s = dd.measureAll(y, false, mt);
  c.check(dist(toVec(y), before) < 1e-12, "non-collapsing-measurement-changed-state");
  auto prob = [&](const std::string& t) { return t.size() == n ? std::norm(v[std::stoull(t, nullptr, 2)]) : 0.; };
  c.check(prob(s) > 1e-9, "measure-all-impossible-outcome", s);
  const auto t = dd.measureAll(y, true, mt);
  c.check(prob(t) > 1e-9, "measure-all-impossible-outcome", t);
  c.check(dist(toVec(y), basis(n, std::stoull(t, nullptr, 2))) < 1e-9, "measure-all-collapse", t + " " + vecStr(toVec(y)));
  dd.decRef(y);
  dd.decRef(x);
  c.check(dist(toVec(orig), v) < TOL, "other-handle-changed");
}
// the statistics of one state: N * KL is at most ~28 except with probability 1e-12 per outcome
std::string statistics(const std::map<std::string, double>& exp, const std::map<std::string, std::size_t>& got, std::size_t shots) {
  std::size_t total = 0;
  for (const auto& [k, n] : got) {
    total += n;
    const auto it = exp.find(k);
    if (n > 0 && (it == exp.end() || it->second < 1e-10)) {
      return cat("impossible outcome ", k, " seen ", n, " times");
    }
  }
  if (total != shots) {
    return cat(total, " samples instead of ", shots);
  }
  const auto N = static_cast<double>(shots);
  for (const auto& [k, p0] : exp) {
    const double p = std::min(1.0, std::max(0.0, p0));
    const auto it = got.find(k);
    const double f = it == got.end() ? 0 : static_cast<double>(it->second) / N;
    double kl = 0;
    if (f > 0) {
      kl += f * std::log(f / std::max(p, 1e-300));
    }
    if (f < 1) {
      kl += (1 - f) * std::log((1 - f) / std::max(1 - p, 1e-14));
    }
    if (N * kl > 30) {
      return cat("outcome ", k, " seen ", f * N, " of ", shots, " times, probability ", p);
    }
  }
  return "";
}
std::string bitString(const std::vector<bool>& b) {
  std::string s(b.size(), '0');
  for (std::size_t i = 0; i < b.size(); ++i) {
    s[b.size() - 1 - i] = b[i] ? '1' : '0';
  }
  return s;
}
std::map<std::string, double> distribution(const Circ& circ, const Vec& in) {
  std::map<std::string, double> m;
  for (const auto& [k, p] : outcomeDistribution(runBranches(circ, in))) {
    m[bitString(k)] += p;
  }
  return m;
}
std::string histStr(const std::map<std::string, std::size_t>& h) {
  std::string s;
  for (const auto& [k, v] : h) {
    s += cat(k, ":", v, " ");
  }
  return s;
}
void judge(Ctx& c, qc::QuantumComputation& q, const Circ& circ, const std::map<std::string, double>& exp, std::size_t shots, const Vec* in) {
  auto& r = c.rng;
  const std::size_t seed = 1 + r.below(1000000007);
  std::map<std::string, std::size_t> got;
  auto run = [&] {
    if (in == nullptr) {
      return dd::sample(q, shots, seed);
    }
    dd::Package dd(circ.n, dd::DDPackageConfig{});
    auto e = makeState(dd, *in);
    dd.incRef(e);
    dd.incRef(e);
    return dd::sample(q, e, dd, shots, seed);
  };
  got = run();
  const auto err = statistics(exp, got, shots);
  c.check(err.empty(), "sampling:" + c.suite, err + " | " + histStr(got));
  c.count("shots", shots);
  c.count("outcomes-seen", got.size());
  if (r.chance(0.3)) {
    c.check(run() == got, "same-seed-differs", histStr(got));
  }
  if (r.chance(0.1)) {
    const auto zero = dd::sample(q, 0, seed);
    c.check(zero.empty(), "zero-shots");
    const auto other = dd::sample(q, shots, 0);
    const auto e2 = statistics(exp, other, shots);
    if (in == nullptr) {
      c.check(e2.empty(), "sampling-random-seed:" + c.suite, e2);
    }
  }
}
// several classical registers covering the bits
std::vector<std::pair<std::size_t, std::size_t>> splitBits(Rng& r, std::size_t nc) {
  std::vector<std::pair<std::size_t, std::size_t>> v;
  std::size_t s = 0;
  while (s < nc) {
    const auto k = r.range(1, nc - s);
    v.emplace_back(s, k);
    s += k;
  }
  return v;
}
qc::QuantumComputation buildMulti(const Circ& circ, const std::vector<std::pair<std::size_t, std::size_t>>& regs, Rng& r) {
  qc::QuantumComputation q(circ.n);
  for (std::size_t i = 0; i < regs.size(); ++i) {
    q.addClassicalRegister(regs[i].second, cat("r", i));
  }
  if (circ.gphase != 0) {
    q.gphase(circ.gphase);
  }
  for (const auto& o : circ.ops) {
    append(q, o, r);
  }
  return q;
}
// gates followed by measurements only, or no measurement at all
void staticSampling(Ctx& c) {
  auto& r = c.rng;
  GenCfg g;
  g.n = static_cast<unsigned>(r.range(1, 5));
  g.nops = r.range(1, 15);
  if (r.chance(0.4)) {
    g.gates = {qc::X, qc::H, qc::SWAP, qc::RY, qc::U};
  }
  auto circ = genCirc(r, g);
  circ.nc = r.range(1, g.n + 2);
  const auto kind = r.below(4);
  std::vector<std::pair<std::size_t, std::size_t>> regs;
  if (kind == 0) { // no measurement: the qubits themselves
    circ.nc = r.chance(0.5) ? 0 : r.range(1, g.n);
    if (circ.nc > 0) {
      regs = splitBits(r, circ.nc);
    }
    auto q = buildMulti(circ, regs, r);
    if (r.chance(0.5)) {
      const auto a = r.perm(g.n);
      for (unsigned i = 0; i < g.n; ++i) {
        q.outputPermutation[i] = static_cast<qc::Qubit>(a[i]);
      }
    }
    const auto v = runUnitary(circ, basis(g.n, 0));
    std::map<std::string, double> exp;
    for (std::size_t i = 0; i < v.size(); ++i) {
      std::string s(g.n, '0');
      for (unsigned b = 0; b < g.n; ++b) {
        s[g.n - 1 - q.outputPermutation.at(b)] = ((i >> b) & 1U) ? '1' : '0';
      }
      exp[s] += std::norm(v[i]);
    }
    announce(c, "no measurement " + str(circ));
    judge(c, q, circ, exp, r.range(100, 2000), nullptr);
    return;
  }
  const auto m = r.range(1, g.n + 2);
  for (std::size_t i = 0; i < m; ++i) {
    Op o;
    o.k = Op::Measure;
    o.type = qc::Measure;
    const auto k = r.chance(0.3) ? r.range(1, std::min<std::size_t>(g.n, circ.nc)) : 1;
    o.t = pickQubits(r, g.n, k);
    o.bits = r.perm(circ.nc);
    o.bits.resize(k);
    circ.ops.push_back(o);
  }
  regs = splitBits(r, circ.nc);
  auto q = buildMulti(circ, regs, r);
  const bool io = r.chance(0.4);
  if (io) {
    q.initializeIOMapping();
  }
  announce(c, cat(str(circ), io ? " with initializeIOMapping" : ""));
  randGCLimit(r, 0.1);
  if (r.chance(0.3)) {
    const auto in = randomState(r, g.n);
    judge(c, q, circ, distribution(circ, in), r.range(100, 2000), &in);
  } else {
    judge(c, q, circ, distribution(circ, basis(g.n, 0)), r.range(100, 2000), nullptr);
  }
}
void dynamic(Ctx& c) {
  auto& r = c.rng;
  GenCfg g;
  g.n = static_cast<unsigned>(r.range(1, 4));
  g.nc = r.range(1, 5);
  g.nops = r.range(2, 16);
  g.measure = 0.25;
  g.reset = r.chance(0.5) ? 0.1 : 0;
  g.cond = 0.25;
  g.cregs = splitBits(r, g.nc);
  if (r.chance(0.5)) {
    g.gates = {qc::X, qc::H, qc::SWAP, qc::RY, qc::T};
  }
  auto circ = genCirc(r, g);
  if (r.chance(0.7)) {
    Op o;
    o.k = Op::Measure;
    o.type = qc::Measure;
    const auto k = std::min<std::size_t>(g.n, g.nc);
    o.t = pickQubits(r, g.n, k);
    o.bits = r.perm(g.nc);
    o.bits.resize(k);
    circ.ops.push_back(o);
  }
  std::size_t meas = 0;
  for (const auto& o : circ.ops) {
    meas += o.k == Op::Measure || o.k == Op::Reset ? o.t.size() : 0;
  }
  if (meas > 12) {
    throw Skip{};
  }
  if (meas == 0) {
    throw Skip{};
  }
  auto q = buildMulti(circ, g.cregs, r);
  const bool io = r.chance(0.2);
  if (io) {
    q.initializeIOMapping();
  }
  announce(c, cat(str(circ), io ? " with initializeIOMapping" : ""));
  randGCLimit(r, 0.1);
  if (r.chance(0.2)) {
    const auto in = randomState(r, g.n);
    judge(c, q, circ, distribution(circ, in), c.thorough ? 1500 : 400, &in);
  } else {
    judge(c, q, circ, distribution(circ, basis(g.n, 0)), c.thorough ? 1500 : 400, nullptr);
  }
}
// one measurement/reset/conditional operation at a time, exact post-states, any permutation
void steps(Ctx& c) {
  auto& r = c.rng;
  const auto n = static_cast<unsigned>(r.range(1, 4));
  const std::size_t nc = r.range(1, 4);
  dd::Package dd(n, randConfig(r));
  auto v = randomState(r, n);
  auto e = makeState(dd, v);
  std::mt19937_64 mt(r.next());
  std::vector<bool> bits(nc, false);
  std::vector<bool> ref(nc, false);
  qc::Permutation perm;
  const auto pm = r.perm(n);
  const bool usePerm = r.chance(0.5);
  if (usePerm) {
    for (unsigned i = 0; i < n; ++i) {
      perm[i] = static_cast<qc::Qubit>(pm[i]);
    }
  }
  auto where = [&](unsigned q) { return usePerm ? static_cast<unsigned>(pm[q]) : q; };
  GenCfg g;
  g.n = n;
  g.nc = nc;
  g.measure = 0.3;
  g.reset = 0.2;
  g.cond = 0.3;
  g.cregs = splitBits(r, nc);
  std::string log = cat("n=", n, " ", vecStr(v));
  for (int s = 0; s < 10; ++s) {
    const auto o = genOp(r, g);
    log += str(o) + "; ";
    announce(c, log);
    Op m = o;
    remap(m, where);
    const auto op = toOperation(o);
    if (o.k == Op::Measure) {
      e = dd::applyMeasurement(dynamic_cast<const qc::NonUnitaryOperation&>(*op), e, dd, mt, bits, perm);
      for (std::size_t j = 0; j < m.t.size(); ++j) {
        ref[m.bits[j]] = bits[m.bits[j]];
        const double p1 = probOne(v, m.t[j]);
        const double p = bits[m.bits[j]] ? p1 : 1 - p1;
        if (!c.check(p > 1e-9, "impossible-outcome", cat(str(o), " p=", p)) || p < 1e-5) {
          return;
        }
        v = projected(v, m.t[j], bits[m.bits[j]]);
      }
      c.check(bits == ref, "measurement-changed-other-bits");
    } else if (o.k == Op::Reset) {
      e = dd::applyReset(dynamic_cast<const qc::NonUnitaryOperation&>(*op), e, dd, mt, perm);
      // the result must be one of the branches
      std::vector<Branch> bs{{v, {}}};
      applyOp(bs, m);
      const auto got = toVec(e);
      double best = 1e9;
      for (auto& b : bs) {
        const double w = std::sqrt(norm2(b.v));
        for (auto& x : b.v) {
          x /= w;
        }
        if (dist(b.v, got) < best) {
          best = dist(b.v, got);
          v = b.v;
        }
      }
      if (!c.check(best < 1e-5, "reset-post-state", cat(str(o), " deviation ", best))) {
        return;
      }
    } else if (o.k == Op::If) {
      e = dd::applyClassicControlledOperation(dynamic_cast<const qc::ClassicControlledOperation&>(*op), e, dd, bits, perm);
      std::vector<Branch> bs{{v, bits}};
      applyOp(bs, m);
      v = bs.at(0).v;
    } else if (o.k == Op::Gate && o.type == qc::SWAP && o.c.empty()) {
      e = dd::applyUnitaryOperation(*op, e, dd, perm);
      applyUnitary(v, m);
    } else {
      e = dd::applyUnitaryOperation(*op, e, dd, perm);
      applyUnitary(v, m);
    }
    c.count("steps");
    if (!c.check(dist(toVec(e), v) < 1e-5, "post-state:" + std::string(o.k == Op::Measure ? "measure" : o.k == Op::Reset ? "reset" : o.k == Op::If ? "condition" : "gate"),
                 cat(str(o), " bits ", bitString(bits), " got ", vecStr(toVec(e)), " expected ", vecStr(v)))) {
      return;
    }
    if (r.chance(0.1)) {
      dd.garbageCollect(true);
    }
  }
}
// every comparison against every value of a register, without randomness
void conditions(Ctx& c) {
  const auto k = c.local;
  const auto cmp = static_cast<qc::ComparisonKind>(k % 6);
  const std::size_t size = 1 + (k / 6) % 4;
  const std::size_t start = (k / 24) % 3;
  const bool neg = ((k / 72) % 2) != 0;
  for (std::uint64_t val = 0; val < (1U << size); ++val) {
    const auto n = static_cast<unsigned>(size + 1);
    const std::uint64_t last = 1U << size; // expected values 0..last, the qubit is toggled and measured for each
    qc::QuantumComputation q(n);
    if (start > 0) {
      q.addClassicalRegister(start, "pad");
    }
    q.addClassicalRegister(size, "val");
    q.addClassicalRegister(last + 1, "res");
    for (unsigned i = 0; i < size; ++i) {
      if ((val >> i) & 1U) {
        q.x(i);
      }
      q.measure(i, start + i);
    }
    const auto ctl = neg ? qc::Controls{qc::Control{0, qc::Control::Type::Neg}} : qc::Controls{};
    std::string want = std::string(start, '0');
    for (std::size_t i = 0; i < size; ++i) {
      want += ((val >> i) & 1U) ? '1' : '0';
    }
    bool on = false;
    for (std::uint64_t exp = 0; exp <= last; ++exp) {
      q.classicControlled(qc::X, static_cast<qc::Qubit>(size), ctl, q.getClassicalRegisters().at("val"), exp, cmp);
      q.measure(static_cast<qc::Qubit>(size), start + size + exp);
      on = on != (compare(val, cmp, exp) && (!neg || (val & 1U) == 0));
      want += on ? '1' : '0';
    }
    std::reverse(want.begin(), want.end());
    announce(c, cat("val ", val, " ", qc::toString(cmp), " 0..", last, " size ", size, " start ", start, " neg ", neg));
    const auto h = dd::sample(q, 3, 7);
    c.check(h.size() == 1 && h.begin()->first == want && h.begin()->second == 3, "condition", histStr(h) + " expected " + want);
    c.count("comparisons", last + 1);
  }
}
// tens of qubits and bits, wide registers, few basis states
void huge(Ctx& c) {
  auto& r = c.rng;
  const auto n = static_cast<unsigned>(r.range(8, 110));
  const std::size_t nc = r.range(8, 110);
  std::vector<std::pair<std::size_t, std::size_t>> regs;
  for (std::size_t s = 0; s < nc;) {
    const auto k = std::min<std::size_t>(nc - s, r.chance(0.5) ? r.range(30, 64) : r.range(1, 64));
    regs.emplace_back(s, k);
    s += k;
  }
  struct Branch {
    Key bits = 0;
    Sparse v;
  };
  std::vector<Branch> state{{0, {{0, 1}}}};
  auto terms = [](const std::vector<Branch>& b) {
    std::size_t t = 0;
    for (const auto& x : b) {
      t += x.v.size();
    }
    return t;
  };
  auto split = [](const Branch& b, unsigned q) {
    std::array<Branch, 2> o{Branch{b.bits, {}}, Branch{b.bits, {}}};
    for (const auto& [k, a] : b.v) {
      o[bitOf(k, q) ? 1 : 0].v[k] = a;
    }
    return o;
  };
  const auto apply = [&](const Op& o, const std::vector<Branch>& in) {
    std::vector<Branch> out;
    for (const auto& b : in) {
      if (o.k == Op::Measure || o.k == Op::Reset) {
        std::vector<Branch> cur{b};
        for (std::size_t i = 0; i < o.t.size(); ++i) {
          std::vector<Branch> next;
          for (const auto& x : cur) {
            auto two = split(x, o.t[i]);
            for (int j = 0; j < 2; ++j) {
              if (two[j].v.empty()) {
                continue;
              }
              if (o.k == Op::Measure) {
                two[j].bits = (two[j].bits & ~oneBit(o.bits[i])) | (j ? oneBit(o.bits[i]) : Key{0});
              } else if (j == 1) {
                Sparse z;
                for (const auto& [k, a] : two[j].v) {
                  z[k & ~oneBit(o.t[i])] = a;
                }
                two[j].v = z;
              }
              next.push_back(two[j]);
            }
          }
          cur = next;
        }
        out.insert(out.end(), cur.begin(), cur.end());
      } else if (o.k == Op::If) {
        std::uint64_t v = 0;
        for (std::size_t i = 0; i < o.condBits.size(); ++i) {
          v |= (bitOf(b.bits, o.condBits[i]) ? std::uint64_t{1} : 0) << i;
        }
        out.push_back({b.bits, compare(v, o.cmp, o.expected) ? runSparse(o.body.at(0), b.v) : b.v});
      } else {
        out.push_back({b.bits, runSparse(o, b.v)});
      }
    }
    return out;
  };
  Circ circ;
  circ.n = n;
  circ.nc = nc;
  GenCfg g;
  g.n = n;
  g.maxCtl = 5;
  g.compound = 0;
  const bool dynamic = r.chance(0.6);
  const std::size_t steps = r.range(5, 40);
  for (std::size_t i = 0; i < steps; ++i) {
    Op o;
    const auto& b = r.pick(state);
    const auto x = r.unit();
    if (i >= steps / 2 && !dynamic ? true : dynamic && x < 0.3) {
      o.k = Op::Measure;
      o.type = qc::Measure;
      o.t = pickQubits(r, n, r.range(1, std::min<std::size_t>({n, nc, 12})));
      o.bits = r.perm(nc);
      o.bits.resize(o.t.size());
    } else if (dynamic && x < 0.35) {
      o.k = Op::Reset;
      o.type = qc::Reset;
      o.t = pickQubits(r, n, r.range(1, 3));
    } else if (dynamic && x < 0.6) {
      o.k = Op::If;
      o.type = qc::ClassicControlled;
      const auto& [s, k] = r.pick(regs);
      std::uint64_t v = 0;
      for (std::size_t j = 0; j < k; ++j) {
        o.condBits.push_back(s + j);
        v |= (bitOf(b.bits, s + j) ? std::uint64_t{1} : 0) << j;
      }
      const auto e = r.below(4); // the value itself or one nearby
      o.expected = e == 0 ? v : e == 1 ? v ^ (std::uint64_t{1} << r.below(k)) : e == 2 ? v + 1 : v - 1;
      o.cmp = static_cast<qc::ComparisonKind>(r.below(6));
      o.body.push_back(genGate(r, g));
    } else if (x < 0.75) { // values to look at
      o.k = Op::Gate;
      o.type = qc::X;
      o.t = pickQubits(r, n, 1);
    } else {
      o = genGate(r, g);
    }
    auto next = apply(o, state);
    if (terms(next) > 64) {
      continue;
    }
    state = std::move(next);
    circ.ops.push_back(std::move(o));
  }
  {
    Op o;
    o.k = Op::Measure;
    o.type = qc::Measure;
    o.t = pickQubits(r, n, std::min<std::size_t>(n, nc));
    o.bits = r.perm(nc);
    o.bits.resize(o.t.size());
    state = apply(o, state);
    circ.ops.push_back(o);
  }
  std::map<std::string, double> exp;
  for (const auto& b : state) {
    double p = 0;
    for (const auto& [k, a] : b.v) {
      p += std::norm(a);
    }
    auto s = keyStr(b.bits, static_cast<unsigned>(nc));
    exp[std::string(s.rbegin(), s.rend())] += p;
  }
  auto q = buildMulti(circ, regs, r);
  announce(c, str(circ));
  randGCLimit(r, 0.1);
  judge(c, q, circ, exp, dynamic ? 40 : 300, nullptr);
}
} // namespace
int main(int argc, char** argv) {
  return runMain(argc, argv, "P05",
                 {{"states", 8000, 200000, states},
                  {"static-sampling", 5000, 100000, staticSampling},
                  {"dynamic-sampling", 1200, 60000, dynamic},
                  {"huge", 300, 10000, huge},
                  {"steps", 8000, 200000, steps},
                  {"conditions", 144, 144, conditions, true}});
}
