// P14: symbolic expressions and circuits evaluate homomorphically.
#include "common/symgen.hpp"
using namespace vf;
namespace {
constexpr double TOL = 1e-8;
using E = qc::Symbolic;
using T = sym::Term<double>;
struct Sh { // exact shadow (dyadic numbers)
  std::map<std::string, double> k;
  double c = 0;
  void norm() {
    for (auto it = k.begin(); it != k.end();) {
      it = it->second == 0 ? k.erase(it) : std::next(it);
    }
  }
};
struct Pair {
  E e;
  Sh s;
};
double dy(Rng& r) {
  static const std::vector<double> v = {0, 1, -1, 2, -2, 0.5, -0.5, 0.25, 3, -3, 1.5, 5, -0.75};
  return r.pick(v);
}
std::string str(const Sh& s) {
  std::string o;
  for (const auto& [v, k] : s.k) {
    o += cat(k, v, "+");
  }
  return o + cat(s.c);
}
void judge(Ctx& c, const E& e, const Sh& s0, const std::string& what) {
  Sh s = s0;
  s.norm();
  auto& r = c.rng;
  c.check(e.getConst() == s.c, "constant", cat(what, ": ", e.getConst(), " for ", str(s)));
  c.check(e.numTerms() == s.k.size(), "number-of-terms", cat(what, ": ", e.numTerms(), " for ", str(s)));
  std::set<std::string> vars;
  for (const auto& t : e) {
    c.check(vars.insert(t.getVar().getName()).second, "duplicate-variable", what);
    const auto it = s.k.find(t.getVar().getName());
    c.check(it != s.k.end() && it->second == t.getCoeff(), "coefficient", cat(what, ": ", t.getCoeff(), " ", t.getVar().getName(), " for ", str(s)));
  }
  c.check(e.getVariables().size() == s.k.size(), "variables", what);
  c.check(e.isConstant() == s.k.empty(), "is-constant", what);
  c.check(e.isZero() == (s.k.empty() && s.c == 0), "is-zero", what);
  Assign a;
  double exp = s.c;
  for (const auto& v : symVars()) {
    a[v] = dy(r);
  }
  for (const auto& [v, k] : s.k) {
    exp += k * a[v];
  }
  c.check(e.evaluate(toAssign(a)) == exp, "evaluate", cat(what, ": ", e.evaluate(toAssign(a)), " for ", exp));
  if (!s.k.empty()) { // a missing variable is reported
    auto it = s.k.begin();
    std::advance(it, static_cast<long>(r.below(s.k.size())));
    a.erase(it->first);
    bool threw = false;
    try {
      (void)e.evaluate(toAssign(a));
    } catch (const sym::SymbolicException&) {
      threw = true;
    }
    c.check(threw, "missing-variable-not-reported", what);
  }
}
Pair fresh(Rng& r) {
  Pair p;
  auto& v = symVars();
  auto var = [&] { return r.pick(v); };
  switch (r.below(7)) {
  case 0:
    p.s.c = dy(r);
    p.e = E(p.s.c);
    break;
  case 1: {
    const auto a = var();
    const auto k = dy(r);
    p.e = E(T(sym::Variable(a), k));
    p.s.k[a] += k;
    break;
  }
  case 2: {
    const auto a = var();
    const auto b = var();
    const auto k = dy(r);
    const auto l = dy(r);
    p.e = E(T(sym::Variable(a), k), T(sym::Variable(b), l));
    p.s.k[a] += k;
    p.s.k[b] += l;
    break;
  }
  case 3: {
    const auto a = var();
    const auto b = var();
    const auto d = var();
    p.e = E(sym::Variable(a), sym::Variable(b), sym::Variable(d));
    p.s.k[a] += 1;
    p.s.k[b] += 1;
    p.s.k[d] += 1;
    break;
  }
  case 4: {
    std::vector<T> t;
    const auto n = r.range(0, 5);
    for (std::size_t i = 0; i < n; ++i) {
      const auto a = var();
      const auto k = dy(r);
      t.emplace_back(sym::Variable(a), k);
      p.s.k[a] += k;
    }
    p.s.c = dy(r);
    p.e = E(t, p.s.c);
    break;
  }
  case 5: {
    const auto a = var();
    p.e = E(sym::Variable(a));
    p.s.k[a] += 1;
    break;
  }
  default:
    break;
  }
  return p;
}
void expr(Ctx& c) {
  auto& r = c.rng;
  std::vector<Pair> pool;
  std::string log;
  for (int i = 0; i < 3; ++i) {
    pool.push_back(fresh(r));
    log += str(pool.back().s) + " | ";
    announce(c, log);
    judge(c, pool.back().e, pool.back().s, "construction");
  }
  const auto steps = r.range(5, 25);
  for (std::size_t st = 0; st < steps; ++st) {
    auto a = r.pick(pool);
    const auto b = r.pick(pool);
    const auto sc = dy(r);
    const auto v = r.pick(symVars());
    const auto k = dy(r);
    const T t(sym::Variable(v), k);
    const auto op = r.below(21);
    Pair x = a;
    auto add = [](Sh p, const Sh& q, double f) {
      for (const auto& [n, z] : q.k) {
        p.k[n] += f * z;
      }
      p.c += f * q.c;
      return p;
    };
    auto mul = [](Sh p, double f) {
      for (auto& [n, z] : p.k) {
        z *= f;
      }
      p.c *= f;
      return p;
    };
    Sh ts;
    ts.k[v] = k;
    Sh cs;
    cs.c = sc;
    const double div = sc == 0 ? 0 : (r.chance(0.5) ? 2 : -0.5);
    log += cat("op", op, "(", str(a.s), "; ", str(b.s), "; ", sc, "; ", k, v, ") ");
    announce(c, log);
    std::string what = cat("op", op, " ", str(a.s), "; ", str(b.s), "; ", sc, "; ", k, v);
    switch (op) {
    case 0:
      x = {a.e + b.e, add(a.s, b.s, 1)};
      break;
    case 1:
      x = {a.e - b.e, add(a.s, b.s, -1)};
      break;
    case 2:
      x = {-a.e, mul(a.s, -1)};
      break;
    case 3:
      x = {a.e * sc, mul(a.s, sc)};
      break;
    case 4:
      x = {sc * a.e, mul(a.s, sc)};
      break;
    case 5:
      if (div != 0) {
        x = {a.e / div, mul(a.s, 1 / div)};
      } else {
        bool threw = false;
        try {
          x.e = a.e / 0.0;
        } catch (const std::runtime_error&) {
          threw = true;
        }
        c.check(threw, "division-by-zero");
        x = a;
      }
      break;
    case 6:
      x = {a.e + t, add(a.s, ts, 1)};
      break;
    case 7:
      x = {t + a.e, add(a.s, ts, 1)};
      break;
    case 8:
      x = {a.e - t, add(a.s, ts, -1)};
      break;
    case 9:
      x = {t - a.e, add(ts, a.s, -1)};
      break;
    case 10:
      x = {a.e + sc, add(a.s, cs, 1)};
      break;
    case 11:
      x = {a.e - sc, add(a.s, cs, -1)};
      break;
    case 12:
      x = {sc - a.e, add(cs, a.s, -1)};
      break;
    case 13:
      x.e += b.e;
      x.s = add(a.s, b.s, 1);
      break;
    case 14:
      x.e -= b.e;
      x.s = add(a.s, b.s, -1);
      break;
    case 15:
      x.e += t;
      x.e -= T(sym::Variable(v), 2 * k);
      x.s = add(a.s, ts, -1);
      break;
    case 16:
      x.e += x.e;
      x.s = add(a.s, a.s, 1);
      break;
    case 17:
      x.e -= x.e;
      x.s = add(a.s, a.s, -1);
      break;
    case 18:
      x.e *= sc;
      x.e += sc;
      x.s = add(mul(a.s, sc), cs, 1);
      break;
    case 19: {
      const auto z = static_cast<std::int64_t>(r.chance(0.5) ? 2 : -4);
      x = {a.e / z, mul(a.s, 1.0 / static_cast<double>(z))};
      break;
    }
    default:
      x = {a.e, a.s};
      x.e.setConst(sc);
      x.s.c = sc;
      break;
    }
    x.s.norm();
    double big = std::abs(x.s.c);
    for (const auto& [n, z] : x.s.k) {
      big = std::max(big, std::abs(z));
    }
    if (big > 1e6) {
      continue;
    }
    judge(c, x.e, x.s, what);
    judge(c, a.e, a.s, "operand after " + what);
    pool[r.below(pool.size())] = x;
    if (pool.size() < 6) {
      pool.push_back(fresh(r));
    }
    // equality as functions, hashing
    for (const auto& p : pool) {
      for (const auto& q : pool) {
        Sh s = p.s;
        Sh u = q.s;
        s.norm();
        u.norm();
        const bool same = s.k == u.k && s.c == u.c;
        c.check((p.e == q.e) == same, "equality", str(s) + " vs " + str(u));
        c.check((p.e != q.e) != same, "inequality", str(s) + " vs " + str(u));
        if (same) {
          c.check(std::hash<E>{}(p.e) == std::hash<E>{}(q.e), "hash", str(s));
          c.count("equal expression pairs");
        }
      }
    }
  }
  c.count("expression steps", steps);
}
// coefficients that are equal up to rounding
void rounding(Ctx& c) {
  auto& r = c.rng;
  E e(T(sym::Variable("x"), r.uniform(-3, 3)), T(sym::Variable("y"), r.uniform(-3, 3)));
  E f = e;
  const auto n = r.range(1, 6);
  announce(c, cat("rounding ", e[0].getCoeff(), " ", n));
  for (std::size_t i = 0; i < n; ++i) {
    const E d(T(sym::Variable(r.pick(symVars())), r.uniform(-3, 3)));
    f += d;
    f -= d;
  }
  f += e;
  f = f * 0.5;
  c.check(e == f, "equality-up-to-rounding");
  if (e == f) {
    c.check(std::hash<E>{}(e) == std::hash<E>{}(f), "hash-up-to-rounding");
  }
  Assign a;
  for (const auto& v : symVars()) {
    a[v] = r.uniform(-3, 3);
  }
  c.check(std::abs(e.evaluate(toAssign(a)) - f.evaluate(toAssign(a))) < 1e-9, "evaluate-rounding");
}
SymOp genSymOp(Rng& r, const GenCfg& g, int depth) {
  const double x = r.unit();
  if (depth > 0 && x < 0.1) {
    SymOp s;
    s.op.k = Op::Compound;
    s.op.type = qc::Compound;
    const auto k = r.range(1, 3);
    for (std::size_t i = 0; i < k; ++i) {
      s.body.push_back(genSymOp(r, g, depth - 1));
    }
    return s;
  }
  if (depth > 0 && g.nc > 0 && x < 0.2) {
    SymOp s;
    s.op.k = Op::If;
    s.op.type = qc::ClassicControlled;
    s.op.condIsBit = r.chance(0.5);
    if (s.op.condIsBit) {
      s.op.condBits = {r.below(g.nc)};
      s.op.expected = r.below(2);
    } else {
      for (std::size_t i = 0; i < g.nc; ++i) {
        s.op.condBits.push_back(i);
      }
      s.op.expected = r.below(std::uint64_t{1} << g.nc);
      s.op.cmp = static_cast<qc::ComparisonKind>(r.below(6));
    }
    s.body.push_back(genSymOp(r, g, r.chance(0.3) ? 1 : 0));
    if (s.body[0].op.k == Op::If) {
      s.body[0] = genSymGate(r, g, 0.5);
    }
    return s;
  }
  return genSymGate(r, g, 0.5);
}
void dropMeasured(Op&) {}
// what a circuit does for every value of its classical bits
std::vector<Mat> behaviour(const Circ& ci) {
  std::vector<Mat> out;
  const std::size_t d = std::size_t{1} << ci.n;
  for (std::size_t v = 0; v < (std::size_t{1} << ci.nc); ++v) {
    std::vector<bool> bits(ci.nc);
    for (std::size_t i = 0; i < ci.nc; ++i) {
      bits[i] = ((v >> i) & 1U) != 0;
    }
    Mat m(d);
    for (std::size_t b = 0; b < d; ++b) {
      std::vector<Branch> bs{{basis(ci.n, b), bits}};
      for (const auto& o : ci.ops) {
        applyOp(bs, o);
      }
      for (std::size_t i = 0; i < d; ++i) {
        m.at(i, b) = bs.at(0).v[i] * std::polar(1.0, ci.gphase);
      }
    }
    out.push_back(m);
  }
  return out;
}
double dist(const std::vector<Mat>& a, const std::vector<Mat>& b) {
  if (a.size() != b.size()) {
    return 1e9;
  }
  double d = 0;
  for (std::size_t i = 0; i < a.size(); ++i) {
    d = std::max(d, vf::dist(a[i], b[i]));
  }
  return d;
}
void names(Ctx& c, const qc::Operation& op) {
  if (op.isCompoundOperation()) {
    for (const auto& x : dynamic_cast<const qc::CompoundOperation&>(op)) {
      names(c, *x);
    }
  } else if (!op.isClassicControlledOperation()) {
    c.check(op.getName() == qc::toString(op.getType()), "name", op.getName() + " for " + qc::toString(op.getType()));
  }
}
void circuit(Ctx& c) {
  auto& r = c.rng;
  GenCfg g;
  g.n = static_cast<unsigned>(r.range(1, 3));
  g.nc = r.chance(0.5) ? r.range(1, 2) : 0;
  g.maxCtl = 2;
  g.ctlProb = 0.35;
  const auto nops = r.range(1, 8);
  std::vector<SymOp> ops;
  std::string d;
  for (std::size_t i = 0; i < nops; ++i) {
    ops.push_back(genSymOp(r, g, 2));
    d += str(ops.back()) + "; ";
  }
  Assign a;
  for (const auto& v : symVars()) {
    a[v] = niceAngle(r);
    d += cat(v, "=", a[v], " ");
  }
  double ph = r.chance(0.3) ? randAngle(r) : 0;
  announce(c, cat("n=", g.n, " nc=", g.nc, " gphase ", ph, " ") + d);
  qc::QuantumComputation q(g.n, g.nc);
  if (ph != 0) {
    q.gphase(ph);
  }
  Circ num;
  num.n = g.n;
  num.nc = g.nc;
  num.gphase = ph;
  bool symbolic = false;
  std::set<std::string> tracked;
  for (const auto& s : ops) {
    num.ops.push_back(resolve(s, a));
    symbolic = symbolic || hasSym(s);
    if (s.op.k == Op::Gate && !s.e.empty() && s.byMethod) {
      symByMethod(q, s);
      varsOf(s, tracked);
    } else {
      q.emplace_back(toOperation(s));
    }
  }
  c.count(symbolic ? "symbolic circuits" : "numeric circuits");
  c.check(q.isVariableFree() == !symbolic, "is-variable-free");
  for (const auto& v : tracked) {
    c.check(q.getVariables().count(sym::Variable(v)) != 0, "tracked-variable", v);
  }
  for (std::size_t i = 0; i < ops.size(); ++i) {
    c.check(q.at(i)->isSymbolicOperation() == hasSym(ops[i]), "is-symbolic-operation", cat(i));
  }
  const auto want = behaviour(num);
  const auto before = q;
  c.check(before == q && q == before, "copy-equal");
  const auto inst = q.instantiate(toAssign(a));
  c.check(inst.isVariableFree(), "not-variable-free-after-instantiation");
  c.check(inst.getVariables().empty(), "variables-after-instantiation");
  c.check(dist(behaviour(lift(inst)), want) < TOL, "instantiated-computation", vf::str(lift(inst)));
  for (const auto& op : inst) {
    names(c, *op);
  }
  c.check(q == before && q.isVariableFree() == !symbolic, "instantiation-changed-source");
  // in place, on a copy
  auto cp = q;
  cp.instantiateInplace(toAssign(a));
  c.check(cp == inst, "in-place-differs");
  // instantiating twice changes nothing
  cp.instantiateInplace(toAssign(a));
  c.check(dist(behaviour(lift(cp)), want) < TOL, "second-instantiation");
  // inversion commutes with instantiation
  auto inv = q;
  inv.invert();
  c.check(q == before, "inversion-changed-source");
  auto adj = want;
  for (auto& m : adj) {
    m = dagger(m);
  }
  c.check(dist(behaviour(lift(inv.instantiate(toAssign(a)))), adj) < TOL, "inverse-then-instantiate");
  auto inv2 = inst;
  inv2.invert();
  c.check(dist(behaviour(lift(inv2)), adj) < TOL, "instantiate-then-inverse");
  inv.invert();
  c.check(dist(behaviour(lift(inv.instantiate(toAssign(a)))), want) < TOL, "double-inverse");
  // missing variables are reported
  std::set<std::string> used;
  for (const auto& s : ops) {
    varsOf(s, used);
  }
  if (!used.empty()) {
    auto b = a;
    auto it = used.begin();
    std::advance(it, static_cast<long>(r.below(used.size())));
    b.erase(*it);
    bool threw = false;
    try {
      (void)q.instantiate(toAssign(b));
    } catch (const sym::SymbolicException&) {
      threw = true;
    }
    c.check(threw, "missing-variable-not-reported", *it);
    c.check(q == before, "failed-instantiation-changed-source");
  }
}
void single(Ctx& c) {
  auto& r = c.rng;
  GenCfg g;
  g.n = static_cast<unsigned>(r.range(1, 3));
  g.maxCtl = 2;
  const auto s = genSymGate(r, g, r.chance(0.1) ? 0 : 0.6);
  Assign a;
  for (const auto& v : symVars()) {
    a[v] = niceAngle(r);
  }
  std::string d = str(s);
  for (const auto& [v, x] : a) {
    d += cat(" ", v, "=", x);
  }
  announce(c, d);
  if (s.e.empty()) {
    throw Skip{};
  }
  const auto p = toOperation(s);
  auto& op = dynamic_cast<qc::SymbolicOperation&>(*p);
  const auto want = unitaryOf(resolve(s, a), g.n);
  c.check(op.getParameters().size() == static_cast<const qc::Operation&>(op).getParameter().size(), "parameter-count");
  c.check(op.isSymbolicOperation() == hasSym(s) && op.isStandardOperation() != hasSym(s), "kind");
  const auto st = op.getInstantiatedOperation(toAssign(a));
  c.check(vf::dist(unitaryOf(lift(st), g.n), want) < TOL, "instantiated-operation", vf::str(lift(st)));
  auto cl = op.clone();
  c.check(*cl == op && op == *cl, "clone");
  auto& sc = dynamic_cast<qc::SymbolicOperation&>(*cl);
  sc.instantiate(toAssign(a));
  c.check(vf::dist(unitaryOf(lift(sc), g.n), want) < TOL, "instantiate", vf::str(lift(sc)));
  names(c, sc);
  c.check(sc.isStandardOperation(), "instantiated-kind");
  sc.invert();
  c.check(vf::dist(unitaryOf(lift(sc), g.n), dagger(want)) < TOL, "inverse-of-instantiated");
  const auto inv = op.getInverted();
  const auto si = dynamic_cast<const qc::SymbolicOperation&>(*inv).getInstantiatedOperation(toAssign(a));
  c.check(vf::dist(unitaryOf(lift(si), g.n), dagger(want)) < TOL, "instantiated-inverse", vf::str(lift(si)));
  // parameters as stored evaluate to the parameters of the canonical gate
  const auto op2 = p->clone();
  for (std::size_t i = 0; i < op.getParameters().size(); ++i) {
    const auto x = op.getParameter(i);
    c.count(std::holds_alternative<qc::fp>(x) ? "numeric parameters" : "symbolic parameters");
  }
}
} // namespace
int main(int argc, char** argv) {
  return runMain(argc, argv, "P14",
                 {{"expression", 4000, 60000, expr},
                  {"rounding", 2000, 20000, rounding},
                  {"circuit", 8000, 120000, circuit},
                  {"operation", 12000, 150000, single}});
}
