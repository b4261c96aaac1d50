// P15: ZX diagrams describe the circuits they are built from, and every rewriting keeps their meaning.
#include "common/symgen.hpp"
#include "zx/FunctionalityConstruction.hpp"
#include "zx/Simplify.hpp"
#include "zx/ZXDiagram.hpp"

#include <boost/multiprecision/cpp_int.hpp>
using namespace vf;
namespace {
constexpr double TOL = 1e-6;
using zx::EdgeType;
using zx::PiExpression;
using zx::PiRational;
using zx::Vertex;
using zx::VertexType;
using zx::ZXDiagram;

double angle(const PiExpression& e, const Assign& a) {
  double s = e.getConst().toDouble();
  for (const auto& t : e.getTerms()) {
    s += t.getCoeff() * a.at(t.getVar().getName());
  }
  return s;
}
std::vector<Vertex> alive(const ZXDiagram& d) {
  std::vector<Vertex> v;
  for (const auto& [x, _] : d.getVertices()) {
    v.push_back(x);
  }
  return v;
}
std::string str(const ZXDiagram& d) {
  std::ostringstream o;
  o << "in";
  for (auto v : d.getInputs()) {
    o << ' ' << v;
  }
  o << " out";
  for (auto v : d.getOutputs()) {
    o << ' ' << v;
  }
  for (auto v : alive(d)) {
    o << "; " << v << (d.type(v) == VertexType::Z ? "Z" : d.type(v) == VertexType::X ? "X" : "B");
    if (!d.phase(v).isZero()) {
      o << "(" << d.phase(v) << ")";
    }
    for (const auto& e : d.incidentEdges(v)) {
      if (e.to >= v) {
        o << (e.type == EdgeType::Simple ? " -" : " ~") << e.to;
      }
    }
  }
  return o.str();
}
// the linear map of a diagram up to a positive factor: sum over one bit per spider
struct Factor {
  std::vector<std::size_t> vars; // sorted
  std::vector<C> tab;
};
Mat evaluate(const ZXDiagram& d, const Assign& as) {
  const auto vs = alive(d);
  std::map<Vertex, Vertex> par;
  for (auto v : vs) {
    par[v] = v;
  }
  std::function<Vertex(Vertex)> find = [&](Vertex v) { return par[v] == v ? v : par[v] = find(par[v]); };
  auto isX = [&](Vertex v) { return d.type(v) == VertexType::X; };
  std::vector<std::pair<Vertex, Vertex>> had;
  std::map<Vertex, unsigned> loops;
  for (auto v : vs) {
    std::size_t self = 0;
    for (const auto& e : d.incidentEdges(v)) {
      if (e.to == v) {
        self += e.type == EdgeType::Hadamard ? 1 : 0; // both half edges are listed
        continue;
      }
      if (e.to < v) {
        continue;
      }
      if (!par.count(e.to)) {
        throw std::runtime_error("edge to a removed vertex");
      }
      const bool h = (e.type == EdgeType::Hadamard) != (isX(v) != isX(e.to));
      if (h) {
        had.emplace_back(v, e.to);
      } else {
        par[find(v)] = find(e.to);
      }
    }
    loops[v] += static_cast<unsigned>(self / 2);
  }
  std::map<Vertex, double> ph;
  for (auto v : vs) {
    ph[find(v)] += angle(d.phase(v), as) + (loops[v] % 2 ? M_PI : 0);
  }
  std::map<std::pair<Vertex, Vertex>, unsigned> he;
  for (auto [a, b] : had) {
    a = find(a);
    b = find(b);
    if (a == b) {
      ph[a] += M_PI;
    } else {
      ++he[{std::min(a, b), std::max(a, b)}];
    }
  }
  std::vector<Factor> fs;
  for (const auto& [v, p] : ph) {
    fs.push_back({{v}, {1, std::polar(1.0, p)}});
  }
  for (const auto& [e, k] : he) {
    if (k % 2 == 1) {
      fs.push_back({{e.first, e.second}, {1, 1, 1, -1}});
    }
  }
  std::set<std::size_t> open;
  std::vector<std::size_t> bd;
  for (auto v : d.getInputs()) {
    bd.push_back(find(v));
  }
  for (auto v : d.getOutputs()) {
    bd.push_back(find(v));
  }
  open.insert(bd.begin(), bd.end());
  std::set<std::size_t> todo;
  for (const auto& [v, p] : ph) {
    if (!open.count(v)) {
      todo.insert(v);
    }
  }
  auto join = [](const std::vector<Factor>& g, const std::vector<std::size_t>& u, std::size_t bits) {
    C x = 1;
    for (const auto& f : g) {
      std::size_t i = 0;
      for (std::size_t k = 0; k < f.vars.size(); ++k) {
        const auto pos = static_cast<std::size_t>(std::lower_bound(u.begin(), u.end(), f.vars[k]) - u.begin());
        i |= ((bits >> pos) & 1U) << k;
      }
      x *= f.tab[i];
    }
    return x;
  };
  while (!todo.empty()) {
    std::size_t best = 0;
    std::size_t cost = ~std::size_t{0};
    for (auto v : todo) {
      std::set<std::size_t> u;
      for (const auto& f : fs) {
        if (std::find(f.vars.begin(), f.vars.end(), v) != f.vars.end()) {
          u.insert(f.vars.begin(), f.vars.end());
        }
      }
      if (u.size() < cost) {
        cost = u.size();
        best = v;
      }
    }
    if (cost > 17) {
      throw Skip{};
    }
    todo.erase(best);
    std::vector<Factor> g;
    std::vector<Factor> rest;
    std::set<std::size_t> us{best};
    for (auto& f : fs) {
      if (std::find(f.vars.begin(), f.vars.end(), best) != f.vars.end()) {
        us.insert(f.vars.begin(), f.vars.end());
        g.push_back(std::move(f));
      } else {
        rest.push_back(std::move(f));
      }
    }
    const std::vector<std::size_t> u(us.begin(), us.end());
    Factor r;
    const auto pos = static_cast<std::size_t>(std::lower_bound(u.begin(), u.end(), best) - u.begin());
    for (auto x : u) {
      if (x != best) {
        r.vars.push_back(x);
      }
    }
    r.tab.resize(std::size_t{1} << r.vars.size());
    for (std::size_t b = 0; b < r.tab.size(); ++b) {
      const auto lo = b & ((std::size_t{1} << pos) - 1);
      const auto full = lo | ((b & ~((std::size_t{1} << pos) - 1)) << 1U);
      r.tab[b] = (join(g, u, full) + join(g, u, full | (std::size_t{1} << pos))) * M_SQRT1_2;
    }
    rest.push_back(std::move(r));
    fs = std::move(rest);
  }
  const std::vector<std::size_t> u(open.begin(), open.end());
  const auto n = d.getInputs().size();
  if (d.getOutputs().size() != n) {
    throw std::runtime_error("different numbers of inputs and outputs");
  }
  Mat m(std::size_t{1} << n);
  for (std::size_t b = 0; b < (std::size_t{1} << u.size()); ++b) {
    const auto x = join(fs, u, b);
    std::size_t io = 0;
    for (std::size_t k = 0; k < bd.size(); ++k) {
      const auto pos = static_cast<std::size_t>(std::lower_bound(u.begin(), u.end(), bd[k]) - u.begin());
      io |= ((b >> pos) & 1U) << k;
    }
    m.at(io >> n, io & ((std::size_t{1} << n) - 1)) = x;
  }
  return m;
}
double normOf(const Mat& m) {
  double s = 0;
  for (const auto& x : m.a) {
    s += std::norm(x);
  }
  return s;
}
// bookkeeping of a diagram: edges are symmetric, counters and listings agree
bool structure(Ctx& c, const ZXDiagram& d, const std::string& when) {
  const auto vs = alive(d);
  std::string bad;
  if (vs.size() != d.getNVertices()) {
    bad = cat(vs.size(), " vertices listed, ", d.getNVertices(), " counted");
  }
  std::size_t half = 0;
  const std::set<Vertex> set(vs.begin(), vs.end());
  std::map<std::pair<Vertex, Vertex>, int> listed;
  for (auto v : vs) {
    for (const auto& e : d.incidentEdges(v)) {
      ++half;
      if (!set.count(e.to)) {
        bad = cat("edge from ", v, " to removed vertex ", e.to);
        break;
      }
      const auto count = [&](Vertex a, Vertex b) {
        const auto& es = d.incidentEdges(a);
        return std::count_if(es.begin(), es.end(), [&](const auto& x) { return x.to == b && x.type == e.type; });
      };
      if (count(v, e.to) != count(e.to, v)) {
        bad = cat("edge ", v, "-", e.to, " is not symmetric");
      }
      if (e.to >= v) {
        ++listed[{v, e.to}];
      }
    }
  }
  if (bad.empty() && half != 2 * d.getNEdges()) {
    bad = cat(half, " half edges, ", d.getNEdges(), " edges counted");
  }
  if (bad.empty()) {
    for (const auto& [a, b] : d.getEdges()) {
      --listed[{std::min(a, b), std::max(a, b)}];
    }
    for (const auto& [e, k] : listed) {
      if (k != 0) {
        bad = cat("edge ", e.first, "-", e.second, " listed wrongly");
      }
    }
  }
  for (const auto* io : {&d.getInputs(), &d.getOutputs()}) {
    for (auto v : *io) {
      if (!set.count(v) || d.type(v) != VertexType::Boundary || d.degree(v) != 1) {
        bad = cat("open wire ", v, " has no proper end");
      }
    }
  }
  return c.check(bad.empty(), "inconsistent-diagram:" + when, bad);
}
bool same(Ctx& c, const ZXDiagram& d, const Mat& m, const Assign& as, const std::string& key, double tol = TOL) {
  if (!structure(c, d, key)) {
    return false;
  }
  const auto e = evaluate(d, as);
  const auto x = distScalar(e.a, m.a);
  return c.check(x < tol, key, cat("deviation ", x, ", diagram ", str(d)));
}

const std::vector<qc::OpType>& plain() {
  static const std::vector<qc::OpType> g = {
      qc::Z,   qc::RZ,  qc::P,    qc::X,   qc::RX,  qc::Y,   qc::RY,  qc::T,   qc::Tdg, qc::S,         qc::Sdg,
      qc::U2,  qc::U,   qc::SWAP, qc::iSWAP, qc::H, qc::I,   qc::SX,  qc::SXdg, qc::RZZ, qc::RXX,      qc::RZX,
      qc::RYY, qc::DCX, qc::ECR,  qc::XXplusYY, qc::XXminusYY, qc::H, qc::T, qc::S};
  return g;
}
const std::vector<qc::OpType>& cliffords() {
  static const std::vector<qc::OpType> g = {qc::Z,    qc::X,     qc::Y,  qc::S,  qc::Sdg, qc::H,
                                            qc::SWAP, qc::iSWAP, qc::SX, qc::SXdg, qc::DCX, qc::ECR};
  return g;
}
SymOp genSupported(Rng& r, unsigned n, double sym, bool clifford = false) {
  static const std::vector<qc::OpType> one = {qc::X, qc::Z, qc::I, qc::P, qc::T, qc::S, qc::Tdg, qc::Sdg, qc::X, qc::Z};
  static const std::vector<qc::OpType> oneC = {qc::X, qc::Z};
  GenCfg g;
  g.n = n;
  const auto x = r.unit();
  if (n >= 3 && x < 0.07 && !clifford) {
    g.gates = {qc::X, qc::Z};
  } else if (n >= 2 && x < 0.45) {
    g.gates = clifford ? oneC : one;
  } else {
    g.gates = clifford ? cliffords() : plain();
  }
  const std::size_t want = n >= 3 && x < 0.07 && !clifford ? 2 : n >= 2 && x < 0.45 ? 1 : 0;
  SymOp s;
  do {
    g.ctlProb = want > 0 ? 1 : 0;
    g.maxCtl = static_cast<unsigned>(want);
    s.op = genGate(r, g);
  } while (s.op.c.size() != want);
  for (std::size_t i = 0; i < s.op.p.size(); ++i) {
    s.e.push_back(genSym(r, sym));
  }
  s.op.p.clear();
  return s;
}
std::vector<SymOp> genProgram(Rng& r, unsigned n, std::size_t k, double sym, bool clifford = false, double other = 0) {
  std::vector<SymOp> ops;
  while (ops.size() < k) {
    if (n >= 2 && r.chance(0.05)) { // three alternating CNOTs and near misses
      const auto q = pickQubits(r, n, 2);
      unsigned a = q[0];
      unsigned b = q[1];
      for (int i = 0; i < 3; ++i) {
        SymOp s;
        s.op.type = qc::X;
        s.op.t = {b};
        s.op.c = {{a, !r.chance(0.12)}};
        ops.push_back(s);
        if (!r.chance(0.12)) {
          std::swap(a, b);
        }
      }
      continue;
    }
    if (r.chance(0.06)) {
      SymOp s;
      s.op.k = Op::GPhase;
      s.op.type = qc::GPhase;
      s.e.push_back({});
      s.e[0].c = randAngle(r);
      ops.push_back(s);
      continue;
    }
    if (r.chance(0.04)) {
      SymOp s;
      s.op.k = Op::Barrier;
      s.op.type = qc::Barrier;
      s.op.t = pickQubits(r, n, r.range(1, n));
      ops.push_back(s);
      continue;
    }
    if (r.chance(0.06)) {
      SymOp s;
      s.op.k = Op::Compound;
      s.op.type = qc::Compound;
      const auto m = r.range(1, 4);
      s.body = genProgram(r, n, m, sym, clifford, other);
      ops.push_back(s);
      continue;
    }
    if (r.chance(other)) {
      GenCfg g;
      g.n = n;
      SymOp s;
      s.op = genGate(r, g);
      for (std::size_t i = 0; i < s.op.p.size(); ++i) {
        s.e.push_back(genSym(r, 0));
      }
      s.op.p.clear();
      ops.push_back(s);
      continue;
    }
    ops.push_back(genSupported(r, n, sym, clifford));
  }
  return ops;
}
std::unique_ptr<qc::Operation> makeOp(const SymOp& s) {
  switch (s.op.k) {
  case Op::Gate:
    if (hasSym(s)) {
      return toOperation(s);
    }
    return toOperation(resolve(s, {}));
  case Op::GPhase:
    return toOperation(resolve(s, {}));
  case Op::Compound: {
    auto c = std::make_unique<qc::CompoundOperation>();
    for (const auto& b : s.body) {
      c->emplace_back(makeOp(b));
    }
    return c;
  }
  default:
    return toOperation(s.op);
  }
}
struct Program {
  unsigned n = 1;
  std::vector<SymOp> ops;
  std::vector<std::size_t> layout; // physical -> logical
  Assign as;
  std::string s;
};
// Known finding: the conversion negates the angle of XXminusYY (the existing tests demand it). The other monitors
// judge such circuits by what the conversion of that gate alone does.
bool negatedXXminusYY() {
  static const bool neg = [] {
    qc::QuantumComputation q(2);
    q.xx_minus_yy(0.7, 1.1, 0, 1);
    const auto d = evaluate(zx::FunctionalityConstruction::buildFunctionality(&q), {});
    Op o;
    o.type = qc::XXminusYY;
    o.t = {0, 1};
    o.p = {-0.7, 1.1};
    return distScalar(d.a, unitaryOf(o, 2).a) < TOL;
  }();
  return neg;
}
void relabel(Op& o, const std::vector<std::size_t>& p) {
  if (o.k == Op::Gate && o.type == qc::XXminusYY && o.c.empty() && negatedXXminusYY()) {
    o.p[0] = -o.p[0];
  }
  for (auto& t : o.t) {
    t = static_cast<unsigned>(p[t]);
  }
  for (auto& x : o.c) {
    x.q = static_cast<unsigned>(p[x.q]);
  }
  for (auto& b : o.body) {
    relabel(b, p);
  }
}
Mat reference(const Program& p) {
  Circ c;
  c.n = p.n;
  for (const auto& s : p.ops) {
    auto o = resolve(s, p.as);
    relabel(o, p.layout);
    c.ops.push_back(o);
  }
  return unitaryOf(c);
}
qc::QuantumComputation circuit(const Program& p) {
  qc::QuantumComputation q(p.n);
  for (const auto& s : p.ops) {
    q.emplace_back(makeOp(s));
  }
  for (unsigned i = 0; i < p.n; ++i) {
    q.initialLayout[i] = static_cast<qc::Qubit>(p.layout[i]);
  }
  return q;
}
Program program(Ctx& c, unsigned maxN, std::size_t maxOps, double sym, bool clifford = false, double other = 0,
                unsigned fixedN = 0) {
  auto& r = c.rng;
  Program p;
  p.n = fixedN != 0 ? fixedN : static_cast<unsigned>(r.range(1, maxN));
  p.ops = genProgram(r, p.n, r.range(0, maxOps), sym, clifford, other);
  p.layout = r.perm(p.n);
  if (r.chance(0.5)) {
    std::sort(p.layout.begin(), p.layout.end());
  }
  for (const auto& v : symVars()) {
    p.as[v] = r.chance(0.5) ? niceAngle(r) : r.uniform(-4, 4);
  }
  std::ostringstream o;
  o << "n=" << p.n << " layout";
  for (auto x : p.layout) {
    o << ' ' << x;
  }
  for (const auto& s : p.ops) {
    o << "; " << vf::str(s);
  }
  p.s = o.str();
  return p;
}
// diagrams of circuits
void construction(Ctx& c) {
  auto& r = c.rng;
  const auto p = program(c, 4, 12, r.chance(0.4) ? 0.6 : 0, false, r.chance(0.25) ? 0.15 : 0);
  announce(c, p.s);
  const auto q = circuit(p);
  bool all = true;
  for (const auto& op : q) {
    const bool t = zx::FunctionalityConstruction::transformableToZX(op.get());
    all = all && t;
  }
  c.check(zx::FunctionalityConstruction::transformableToZX(&q) == all, "transformable-circuit");
  ZXDiagram d;
  bool built = true;
  try {
    d = zx::FunctionalityConstruction::buildFunctionality(&q);
  } catch (const zx::ZXException& e) {
    built = false;
    c.count("rejected");
    c.check(!all, "rejected-transformable-circuit", e.what());
  }
  if (!built) {
    return;
  }
  c.check(all, "built-untransformable-circuit");
  c.check(d.getNQubits() == p.n, "number-of-qubits");
  c.count("diagrams");
  same(c, d, reference(p), p.as, "diagram-differs-from-circuit");
}
// parameters may turn a gate into one that cannot be converted, e.g. u2(-pi/2,pi/2) is v
ZXDiagram diagramOf(const qc::QuantumComputation* q) {
  if (!zx::FunctionalityConstruction::transformableToZX(q)) {
    throw Skip{};
  }
  return zx::FunctionalityConstruction::buildFunctionality(q);
}
// symbolic diagrams must be right for every assignment, also after rewriting
struct Pass {
  const char* name;
  std::function<void(ZXDiagram&)> f;
  bool graphlike; // needs a graph-like diagram
};
const std::vector<Pass>& passes() {
  static const std::vector<Pass> p = {
      {"idSimp", [](auto& d) { zx::idSimp(d); }, false},
      {"spiderSimp", [](auto& d) { zx::spiderSimp(d); }, false},
      {"toGraphlike", [](auto& d) { d.toGraphlike(); }, false},
      {"localCompSimp", [](auto& d) { zx::localCompSimp(d); }, false},
      {"pivotPauliSimp", [](auto& d) { zx::pivotPauliSimp(d); }, false},
      {"pivotSimp", [](auto& d) { zx::pivotSimp(d); }, false},
      {"pivotgadgetSimp", [](auto& d) { zx::pivotgadgetSimp(d); }, true},
      {"gadgetSimp", [](auto& d) { zx::gadgetSimp(d); }, true},
      {"interiorCliffordSimp", [](auto& d) { zx::interiorCliffordSimp(d); }, false},
      {"cliffordSimp", [](auto& d) { zx::cliffordSimp(d); }, true},
      {"fullReduce", [](auto& d) { zx::fullReduce(d); }, false},
      {"fullReduceApproximate", [](auto& d) { zx::fullReduceApproximate(d, 1e-9); }, false},
      {"removeDisconnectedSpiders", [](auto& d) { d.removeDisconnectedSpiders(); }, false},
      {"approximateCliffords", [](auto& d) { d.approximateCliffords(1e-9); }, false}};
  return p;
}
bool applyPass(Ctx& c, ZXDiagram& d, const Pass& p, const Mat& m, const Assign& as, std::string& log) {
  if (p.graphlike) {
    d.toGraphlike();
    zx::spiderSimp(d);
  }
  log += std::string(p.name) + " ";
  announce(c, c.desc.substr(0, c.desc.find(" | ")) + " | " + log);
  const auto nv = d.getNVertices();
  const auto ne = d.getNEdges();
  p.f(d);
  if (d.getNVertices() != nv || d.getNEdges() != ne) {
    c.count(std::string("changed by ") + p.name);
  }
  return same(c, d, m, as, std::string("changed-meaning:") + p.name);
}
void simplify(Ctx& c) {
  auto& r = c.rng;
  auto p = program(c, 3, 20, r.chance(0.3) ? 0.6 : 0, r.chance(0.3));
  announce(c, p.s);
  const auto q = circuit(p);
  auto d = diagramOf(&q);
  const auto m = reference(p);
  std::string log;
  const auto k = r.range(1, 4);
  for (std::size_t i = 0; i < k; ++i) {
    if (!applyPass(c, d, r.pick(passes()), m, p.as, log)) {
      return;
    }
  }
  // another assignment of the same symbolic diagram
  for (auto& [v, x] : p.as) {
    x = r.uniform(-4, 4);
  }
  same(c, d, reference(p), p.as, "changed-meaning:second-assignment");
}
// arbitrary diagrams, not only those of circuits
PiRational randPhase(Rng& r) {
  switch (r.below(6)) {
  case 0:
  case 1:
    return PiRational(0, 1);
  case 2:
    return PiRational(1, 1);
  case 3:
    return PiRational(static_cast<int64_t>(r.below(4)), 2);
  default:
    return PiRational(static_cast<int64_t>(r.below(8)), 4);
  }
}
ZXDiagram randomDiagram(Rng& r, bool graphlike, unsigned n) {
  ZXDiagram d(n);
  for (unsigned i = 0; i < n; ++i) {
    d.removeEdge(d.getInput(i), d.getOutput(i));
  }
  const auto k = r.range(1, 9);
  std::vector<Vertex> s;
  std::set<std::pair<Vertex, Vertex>> used;
  auto edge = [&](Vertex a, Vertex b, EdgeType t) {
    if (a != b && used.insert({std::min(a, b), std::max(a, b)}).second) {
      d.addEdge(a, b, t);
    }
  };
  auto type = [&] { return graphlike || r.chance(0.5) ? EdgeType::Hadamard : EdgeType::Simple; };
  for (std::size_t i = 0; i < k; ++i) {
    s.push_back(d.addVertex(0, 0, PiExpression(randPhase(r)),
                            !graphlike && r.chance(0.3) ? VertexType::X : VertexType::Z));
  }
  const double dens = r.pick(std::vector<double>{0.15, 0.35, 0.6});
  for (std::size_t i = 0; i < k; ++i) {
    for (std::size_t j = i + 1; j < k; ++j) {
      if (r.chance(dens)) {
        edge(s[i], s[j], type());
      }
    }
  }
  // phase gadgets, often over the same spiders
  const auto gad = r.below(4);
  std::vector<Vertex> common;
  for (std::size_t g = 0; g < gad; ++g) {
    const auto hub = d.addVertex(0, 0, PiExpression(PiRational(r.chance(0.25) ? 1 : 0, 1)));
    if (common.empty() || r.chance(0.3)) {
      common.clear();
      const auto m = r.range(1, std::min<std::size_t>(3, k));
      for (auto i : r.perm(k)) {
        if (common.size() < m) {
          common.push_back(s[i]);
        }
      }
    }
    for (auto x : common) {
      edge(hub, x, r.chance(0.95) ? EdgeType::Hadamard : type());
    }
    const auto leaves = r.chance(0.15) ? 2U : 1U;
    for (unsigned l = 0; l < leaves; ++l) {
      const auto leaf = d.addVertex(0, 0, PiExpression(randPhase(r)));
      edge(hub, leaf, EdgeType::Hadamard);
    }
  }
  std::vector<Vertex> open(d.getInputs());
  open.insert(open.end(), d.getOutputs().begin(), d.getOutputs().end());
  r.shuffle(open);
  for (std::size_t i = 0; i < open.size(); ++i) {
    if (i + 1 < open.size() && r.chance(0.05)) {
      d.addEdge(open[i], open[i + 1], r.chance(0.5) ? EdgeType::Hadamard : EdgeType::Simple);
      ++i;
      continue;
    }
    d.addEdge(open[i], r.pick(s), r.chance(0.5) ? EdgeType::Hadamard : EdgeType::Simple);
  }
  return d;
}
void graphs(Ctx& c) {
  auto& r = c.rng;
  const bool gl = r.chance(0.6);
  auto d = randomDiagram(r, gl, static_cast<unsigned>(r.range(1, 3)));
  announce(c, str(d));
  const auto m = evaluate(d, {});
  if (normOf(m) < 1e-9) {
    c.count("zero");
    throw Skip{};
  }
  std::string log;
  const auto k = r.range(1, 3);
  for (std::size_t i = 0; i < k; ++i) {
    if (!applyPass(c, d, r.pick(passes()), m, {}, log)) {
      return;
    }
  }
}
Mat dropAncilla(const Mat& m, unsigned n, unsigned in, unsigned out) {
  Mat x(std::size_t{1} << (n - 1));
  auto ins = [](std::size_t i, unsigned q) {
    const auto lo = i & ((std::size_t{1} << q) - 1);
    return lo | ((i >> q) << (q + 1));
  };
  for (std::size_t a = 0; a < x.n; ++a) {
    for (std::size_t b = 0; b < x.n; ++b) {
      x.at(a, b) = m.at(ins(a, out), ins(b, in));
    }
  }
  return x;
}
// composition of diagrams
void compose(Ctx& c) {
  auto& r = c.rng;
  const bool sym = r.chance(0.3);
  auto p = program(c, 3, 6, sym ? 0.6 : 0, r.chance(0.4));
  std::string log = p.s + " ## ";
  announce(c, log);
  const auto q = circuit(p);
  auto d = diagramOf(&q);
  auto m = reference(p);
  auto n = p.n;
  const auto k = r.range(1, 5);
  for (std::size_t i = 0; i < k; ++i) {
    std::string what;
    switch (r.below(9)) {
    case 0:
    case 1:
    case 2: {
      auto o = program(c, 3, 6, sym ? 0.6 : 0, false, 0, n);
      o.as = p.as;
      const auto oq = circuit(o);
      auto od = diagramOf(&oq);
      auto om = reference(o);
      if (r.chance(0.3)) {
        zx::fullReduce(od);
      }
      if (r.chance(0.3)) {
        od.invert();
        om = dagger(om);
      }
      if (r.chance(0.25) && n < 3) { // prepared and projected
        auto w = program(c, 3, 6, 0, false, 0, n + 1);
        const auto wq = circuit(w);
        od = diagramOf(&wq);
        const auto a = static_cast<unsigned>(r.below(n + 1));
        const auto b = static_cast<unsigned>(r.below(n + 1));
        om = dropAncilla(reference(w), n + 1, a, b);
        od.makeAncilla(static_cast<zx::Qubit>(a), static_cast<zx::Qubit>(b));
        if (r.chance(0.4)) {
          zx::fullReduce(od);
        }
        log += cat("ancilla ", a, " ", b, " ");
        o.s = w.s;
      }
      what = "concat";
      log += "concat " + o.s;
      announce(c, log);
      const auto before = str(od);
      if (r.chance(0.5)) {
        d.concat(od);
      } else {
        d += od;
      }
      c.check(str(od) == before, "concat-changed-operand");
      m = om * m;
      break;
    }
    case 3:
      what = "adjoint";
      log += "adjoint ";
      announce(c, log);
      if (r.chance(0.5)) {
        d = d.adjoint();
      } else {
        d.invert();
      }
      m = dagger(m);
      break;
    case 4: {
      what = "concat-itself";
      log += "double ";
      announce(c, log);
      d.concat(d);
      m = m * m;
      break;
    }
    case 5: {
      if (n < 2 || r.chance(0.5)) {
        continue;
      }
      what = "makeAncilla";
      const auto a = static_cast<unsigned>(r.below(n));
      const auto b = r.chance(0.5) ? a : static_cast<unsigned>(r.below(n));
      log += cat("makeAncilla ", a, " ", b, " ");
      announce(c, log);
      if (a == b) {
        d.makeAncilla(static_cast<zx::Qubit>(a));
      } else {
        d.makeAncilla(static_cast<zx::Qubit>(a), static_cast<zx::Qubit>(b));
      }
      m = dropAncilla(m, n, a, b);
      --n;
      break;
    }
    case 6: {
      if (n >= 3) {
        continue;
      }
      what = "addQubit";
      const bool h = r.chance(0.3);
      log += cat("addQubit ", h ? "with Hadamard " : "");
      announce(c, log);
      if (r.chance(0.5)) {
        d.addQubit();
      } else {
        d.addQubits(1);
      }
      d.addEdge(d.getInputs().back(), d.getOutputs().back(), h ? EdgeType::Hadamard : EdgeType::Simple);
      Mat w(2);
      w.a = h ? std::vector<C>{M_SQRT1_2, M_SQRT1_2, M_SQRT1_2, -M_SQRT1_2} : std::vector<C>{1, 0, 0, 1};
      m = kron(w, m);
      ++n;
      break;
    }
    default: {
      const auto& pass = r.pick(passes());
      if (normOf(m) < 1e-9) {
        throw Skip{};
      }
      what = pass.name;
      log += std::string(pass.name) + " ";
      announce(c, log);
      if (pass.graphlike) {
        d.toGraphlike();
        zx::spiderSimp(d);
      }
      pass.f(d);
      break;
    }
    }
    if (normOf(m) < 1e-9) {
      c.count("zero");
      throw Skip{};
    }
    if (!same(c, d, m, p.as, "composition:" + what)) {
      return;
    }
    if (d.isIdentity()) {
      c.count("identities");
      const auto x = distScalar(m.a, Mat::id(m.n).a);
      c.check(x < TOL, "wrong-identity", cat("deviation ", x));
    }
  }
}
// the identity check
void identity(Ctx& c) {
  auto& r = c.rng;
  const auto n = static_cast<unsigned>(r.range(1, 4));
  if (r.chance(0.3)) {
    // C and its adjoint: never reported as identity when it is not
    auto p = program(c, 3, 10, r.chance(0.3) ? 0.5 : 0, r.chance(0.5));
    auto w = p;
    const bool mutated = r.chance(0.5) && !p.ops.empty();
    if (mutated) {
      w.ops.erase(w.ops.begin() + static_cast<long>(r.below(w.ops.size())));
    }
    announce(c, p.s + " against " + w.s);
    const auto q = circuit(p);
    const auto v = circuit(w);
    auto d = diagramOf(&q);
    d.concat(diagramOf(&v).adjoint());
    const auto m = dagger(reference(w)) * reference(p);
    c.check(same(c, d, m, p.as, "composition:with-adjoint"), "composition");
    zx::fullReduce(d);
    same(c, d, m, p.as, "changed-meaning:fullReduce");
    const auto x = distScalar(m.a, Mat::id(m.n).a);
    if (d.isIdentity()) {
      c.count("recognised identities");
      c.check(x < TOL, "wrong-identity", cat("deviation ", x));
    } else if (x < TOL) {
      c.count("unrecognised identities");
    }
    return;
  }
  // wires only
  ZXDiagram d(n);
  auto perm = r.perm(n);
  if (r.chance(0.6)) {
    std::sort(perm.begin(), perm.end());
  }
  bool id = true;
  std::ostringstream o;
  for (unsigned i = 0; i < n; ++i) {
    d.removeEdge(d.getInput(i), d.getOutput(i));
  }
  for (unsigned i = 0; i < n; ++i) {
    const bool h = r.chance(0.15);
    const bool spider = r.chance(0.05);
    id = id && !h && !spider && perm[i] == i;
    o << i << (h ? "~" : spider ? "*" : "-") << perm[i] << " ";
    const auto t = h ? EdgeType::Hadamard : EdgeType::Simple;
    if (spider) {
      const auto v = d.addVertex(0, 0, PiExpression(PiRational(1, 1)));
      d.addEdge(d.getInput(i), v, t);
      d.addEdge(v, d.getOutput(perm[i]));
    } else {
      d.addEdge(d.getInput(i), d.getOutput(perm[i]), t);
    }
  }
  announce(c, o.str());
  c.check(d.isIdentity() == id, "identity-check", id ? "not recognised" : "recognised");
}
using boost::multiprecision::cpp_int;
using boost::multiprecision::cpp_rational;
cpp_rational canon(cpp_rational x) {
  // into (-1, 1]
  while (x > 1) {
    x -= 2 * ((numerator(x) / denominator(x) + 1) / 2);
  }
  while (x <= -1) {
    x += 2 * ((-numerator(x) / denominator(x) + 1) / 2);
  }
  return x;
}
cpp_rational of(const PiRational& p) { return {cpp_int(p.getNum()), cpp_int(p.getDenom())}; }
void rational(Ctx& c) {
  auto& r = c.rng;
  auto num = [&] {
    const auto k = r.below(4);
    const auto lim = k == 0 ? 3 : k == 1 ? 12 : k == 2 ? 400 : 1000000;
    return static_cast<int64_t>(r.below(static_cast<std::size_t>(2 * lim + 1))) - lim;
  };
  auto den = [&] {
    const auto k = r.below(3);
    return static_cast<int64_t>(r.range(1, k == 0 ? 4 : k == 1 ? 16 : 100000)) * (r.chance(0.2) ? -1 : 1);
  };
  auto fresh = [&](PiRational& p, cpp_rational& m, std::string& s) {
    const auto a = num();
    const auto b = den();
    switch (r.below(4)) {
    case 0:
      p = PiRational(a);
      m = a;
      s += cat(a);
      break;
    case 1:
      p = PiRational(BigInt(a), BigInt(b < 0 ? -b : b));
      m = cpp_rational(a, b < 0 ? -b : b);
      s += cat("big ", a, "/", b);
      break;
    default:
      p = PiRational(a, b < 0 ? -b : b);
      m = cpp_rational(a, b < 0 ? -b : b);
      s += cat(a, "/", b);
    }
    m = canon(m);
  };
  PiRational x;
  cpp_rational mx = 0;
  std::string log;
  fresh(x, mx, log);
  auto verify = [&](const PiRational& p, const cpp_rational& m, const std::string& k) {
    const auto v = of(p);
    c.check(v == m, "rational:" + k, cat(log, ": got ", v.str(), ", expected ", m.str()));
    c.check(p.isZero() == (m == 0) && p.isInteger() == (denominator(m) == 1), "rational:queries", log);
    const double dm = m.convert_to<double>();
    c.check(std::abs(p.toDoubleDivPi() - dm) < 1e-12 && std::abs(p.toDouble() - dm * M_PI) < 1e-11 &&
                std::abs(static_cast<double>(p) - dm * M_PI) < 1e-11,
            "rational:to-double", log);
    c.check(p.isClose(dm * M_PI, 1e-9) && !p.isClose(dm * M_PI + 1e-3, 1e-4) && p.isCloseDivPi(dm, 1e-9) &&
                !p.isCloseDivPi(dm - 1e-3, 1e-4),
            "rational:is-close", log);
    c.check(p.getDenom() > 0, "rational:denominator", log);
    std::ostringstream o;
    o << p;
    c.check(o.str() == cat(numerator(m).str(), "/", denominator(m).str()), "rational:printed", o.str());
  };
  verify(x, mx, "construct");
  const auto k = r.range(1, 6);
  for (std::size_t i = 0; i < k; ++i) {
    PiRational y;
    cpp_rational my = 0;
    const auto op = r.below(4);
    const bool withInt = r.chance(0.4);
    int64_t n = num();
    log += cat(" ", "+-*/"[op], " ");
    if (withInt) {
      my = n;
      log += cat("int ", n);
    } else {
      fresh(y, my, log);
    }
    const bool left = r.chance(0.4); // y op x
    if (left) {
      log += " (as left operand)";
    }
    const auto& a = left ? my : mx;
    const auto& b = left ? mx : my;
    announce(c, log);
    if (op == 3 && b == 0) {
      c.count("division by zero");
      return;
    }
    const auto expect = canon(op == 0 ? cpp_rational(a + b)
                              : op == 1 ? cpp_rational(a - b)
                              : op == 2 ? cpp_rational(a * b)
                                        : cpp_rational(a / b));
    const auto old = x;
    if (left) {
      x = withInt ? (op == 0   ? n + x
                     : op == 1 ? n - x
                     : op == 2 ? n * x
                               : n / x)
                  : (op == 0   ? y + x
                     : op == 1 ? y - x
                     : op == 2 ? y * x
                               : y / x);
    } else if (r.chance(0.5)) {
      x = withInt ? (op == 0   ? x + n
                     : op == 1 ? x - n
                     : op == 2 ? x * n
                               : x / n)
                  : (op == 0   ? x + y
                     : op == 1 ? x - y
                     : op == 2 ? x * y
                               : x / y);
    } else {
      switch (op) {
      case 0:
        withInt ? x += n : x += y;
        break;
      case 1:
        withInt ? x -= n : x -= y;
        break;
      case 2:
        withInt ? x *= n : x *= y;
        break;
      default:
        withInt ? x /= n : x /= y;
      }
    }
    mx = expect;
    verify(x, mx, std::string(withInt ? "int" : "") + "+-*/"[op] + (left ? "left" : ""));
    verify(-x, canon(-mx), "negation");
    // comparisons of the representatives
    const auto cy = withInt ? cpp_rational(n) : my;
    auto cmp = [&](auto& u, auto& v, const cpp_rational& mu, const cpp_rational& mv) {
      c.check((u < v) == (mu < mv) && (u <= v) == (mu <= mv) && (u > v) == (mu > mv) && (u >= v) == (mu >= mv) &&
                  (u == v) == (mu == mv) && (u != v) == (mu != mv),
              "rational:comparison", log);
    };
    if (withInt) {
      cmp(x, n, mx, cy);
      cmp(n, x, cy, mx);
    } else {
      cmp(x, y, mx, cy);
      cmp(y, x, cy, mx);
    }
    cmp(x, x, mx, mx);
  }
  // conversion of angles
  const double v = r.chance(0.5) ? randAngle(r)
                   : r.chance(0.5) ? static_cast<double>(num()) * M_PI / static_cast<double>(den())
                                   : std::ldexp(r.uniform(-1, 1), static_cast<int>(r.below(60)) - 45);
  announce(c, cat("angle ", v));
  const PiRational p(v);
  const auto got = p.toDouble();
  c.check(got <= M_PI + 1e-12 && got > -M_PI - 1e-12, "rational:angle-range", cat(got));
  const double diff = std::remainder(got - v, 2 * M_PI);
  c.check(std::abs(diff) < 1e-8 + std::abs(v) * 1e-14, "rational:angle", cat("angle ", v, " became ", got));
}
// editing diagrams against a plain model
void edit(Ctx& c) {
  auto& r = c.rng;
  const auto n = static_cast<unsigned>(r.range(0, 3));
  ZXDiagram d(n);
  struct MV {
    VertexType t;
    cpp_rational ph = 0;
    zx::Qubit q;
  };
  std::map<Vertex, MV> mv;
  std::map<std::pair<Vertex, Vertex>, EdgeType> me;
  for (unsigned i = 0; i < n; ++i) {
    mv[d.getInput(i)] = {VertexType::Boundary, 0, static_cast<zx::Qubit>(i)};
    mv[d.getOutput(i)] = {VertexType::Boundary, 0, static_cast<zx::Qubit>(i)};
    me[{std::min(d.getInput(i), d.getOutput(i)), std::max(d.getInput(i), d.getOutput(i))}] = EdgeType::Simple;
  }
  std::set<Vertex> gone;
  std::string log = cat("n=", n, ": ");
  auto key = [](Vertex a, Vertex b) { return std::make_pair(std::min(a, b), std::max(a, b)); };
  auto verify = [&](const std::string& what) {
    std::string bad;
    std::map<Vertex, int> seen;
    for (const auto& [v, data] : d.getVertices()) {
      ++seen[v];
      const auto it = mv.find(v);
      if (it == mv.end()) {
        bad = cat("vertex ", v, " listed");
      } else if (data.type != it->second.t || of(data.phase.getConst()) != it->second.ph ||
                 data.qubit != it->second.q || d.type(v) != it->second.t || d.qubit(v) != it->second.q) {
        bad = cat("data of vertex ", v);
      }
    }
    if (seen.size() != mv.size() || d.getNVertices() != mv.size()) {
      bad = cat("number of vertices ", d.getNVertices(), " instead of ", mv.size());
    }
    if (d.getNEdges() != me.size()) {
      bad = cat("number of edges ", d.getNEdges(), " instead of ", me.size());
    }
    std::set<std::pair<Vertex, Vertex>> es;
    if (!mv.empty()) {
      for (const auto& [a, b] : d.getEdges()) {
        if (!me.count(key(a, b)) || !es.insert(key(a, b)).second) {
          bad = cat("edge ", a, "-", b, " listed");
        }
      }
    } else {
      c.check(d.getEdges().empty(), "editing:edges-of-empty-diagram");
    }
    if (es.size() != me.size()) {
      bad = cat(es.size(), " edges listed instead of ", me.size());
    }
    if (d.getNdeleted() != gone.size()) {
      bad = "number of removed vertices";
    }
    std::vector<Vertex> ids;
    for (const auto& [v, _] : mv) {
      ids.push_back(v);
      if (d.isDeleted(v)) {
        bad = cat("vertex ", v, " marked as removed");
      }
    }
    for (auto v : gone) {
      if (!d.isDeleted(v)) {
        bad = cat("vertex ", v, " not marked as removed");
      }
      ids.push_back(v);
    }
    const auto adj = d.getAdjMat();
    for (auto a : ids) {
      std::size_t deg = 0;
      for (auto b : ids) {
        const auto it = me.find(key(a, b));
        const bool con = a != b && it != me.end();
        deg += con ? 1 : 0;
        if (d.connected(a, b) != con) {
          bad = cat("connected ", a, " ", b);
        }
        if (mv.count(a) && mv.count(b)) {
          if (a >= adj.size() || b >= adj.size() || adj[a].size() <= b) {
            bad = "size of the adjacency matrix";
          } else if (a != b && adj[a][b] != con) {
            bad = cat("adjacency ", a, " ", b);
          }
          const auto e = d.getEdge(a, b);
          if (e.has_value() != con || (con && (e->to != b || e->type != it->second))) {
            bad = cat("edge ", a, " ", b);
          }
        }
      }
      if (mv.count(a) && (d.degree(a) != deg || d.incidentEdges(a).size() != deg)) {
        bad = cat("degree of ", a);
      }
    }
    if (!ids.empty()) {
      std::vector<Vertex> s;
      std::vector<Vertex> ex;
      for (const auto& [v, _] : mv) {
        if (r.chance(0.4)) {
          s.push_back(v);
        }
        if (r.chance(0.2)) {
          ex.push_back(v);
        }
      }
      std::set<Vertex> want;
      for (auto v : s) {
        for (const auto& [e, _] : me) {
          if (e.first == v || e.second == v) {
            want.insert(e.first == v ? e.second : e.first);
          }
        }
      }
      for (auto v : ex) {
        want.erase(v);
      }
      if (d.getConnectedSet(s, ex) != std::vector<Vertex>(want.begin(), want.end())) {
        bad = "connected set";
      }
    }
    return c.check(bad.empty(), "editing:" + what, bad);
  };
  if (!verify("create")) {
    return;
  }
  const auto k = r.range(1, 25);
  for (std::size_t i = 0; i < k; ++i) {
    std::vector<Vertex> ids;
    for (const auto& [v, _] : mv) {
      ids.push_back(v);
    }
    std::string what;
    const auto x = r.below(10);
    if (x < 3 || ids.size() < 2) {
      what = "addVertex";
      const auto t = r.chance(0.5) ? VertexType::Z : VertexType::X;
      const auto ph = randPhase(r);
      const auto q = static_cast<zx::Qubit>(r.below(4));
      const auto v = r.chance(0.5) ? d.addVertex(q, 0, PiExpression(ph), t) : d.addVertex({0, q, PiExpression(ph), t});
      log += cat("add ", v, "; ");
      announce(c, log);
      if (!c.check(!mv.count(v), "editing:vertex-reused", cat(v))) {
        return;
      }
      gone.erase(v);
      mv[v] = {t, of(ph), q};
    } else if (x < 6) {
      const auto a = r.pick(ids);
      const auto b = r.pick(ids);
      if (a == b || me.count(key(a, b))) {
        continue;
      }
      what = "addEdge";
      const bool h = r.chance(0.5);
      log += cat("edge ", a, h ? "~" : "-", b, "; ");
      announce(c, log);
      if (h && r.chance(0.5)) {
        d.addHadamardEdge(a, b);
      } else {
        d.addEdge(a, b, h ? EdgeType::Hadamard : EdgeType::Simple);
      }
      me[key(a, b)] = h ? EdgeType::Hadamard : EdgeType::Simple;
    } else if (x < 7) {
      if (me.empty()) {
        continue;
      }
      auto it = me.begin();
      std::advance(it, r.below(me.size()));
      auto [a, b] = it->first;
      if (r.chance(0.5)) {
        std::swap(a, b);
      }
      what = "removeEdge";
      log += cat("unlink ", a, " ", b, "; ");
      announce(c, log);
      d.removeEdge(a, b);
      me.erase(it);
    } else if (x < 8) {
      const auto v = r.pick(ids);
      if (mv[v].t == VertexType::Boundary && r.chance(0.8)) {
        continue;
      }
      if (d.isInput(v) || d.isOutput(v)) {
        continue;
      }
      what = "removeVertex";
      log += cat("remove ", v, "; ");
      announce(c, log);
      d.removeVertex(v);
      mv.erase(v);
      gone.insert(v);
      for (auto it = me.begin(); it != me.end();) {
        it = it->first.first == v || it->first.second == v ? me.erase(it) : std::next(it);
      }
    } else if (x < 9) {
      const auto v = r.pick(ids);
      const auto ph = randPhase(r);
      log += cat("phase ", v, "; ");
      announce(c, log);
      if (r.chance(0.5)) {
        what = "addPhase";
        d.addPhase(v, PiExpression(ph));
        mv[v].ph = canon(mv[v].ph + of(ph));
      } else {
        what = "setPhase";
        d.setPhase(v, PiExpression(ph));
        mv[v].ph = of(ph);
      }
    } else {
      const auto v = r.pick(ids);
      if (mv[v].t == VertexType::Boundary) {
        continue;
      }
      what = "setType";
      log += cat("type ", v, "; ");
      announce(c, log);
      mv[v].t = r.chance(0.5) ? VertexType::Z : VertexType::X;
      d.setType(v, mv[v].t);
    }
    if (!verify(what)) {
      return;
    }
  }
}
// adding an edge next to an existing one keeps the meaning of both
void parallel(Ctx& c) {
  auto& r = c.rng;
  auto d = randomDiagram(r, false, static_cast<unsigned>(r.range(1, 2)));
  std::vector<Vertex> s;
  for (auto v : alive(d)) {
    if (d.type(v) != VertexType::Boundary) {
      s.push_back(v);
    }
  }
  const auto a = r.pick(s);
  const auto b = r.pick(s);
  const auto t = r.chance(0.5) ? EdgeType::Hadamard : EdgeType::Simple;
  announce(c, cat("add ", a, t == EdgeType::Hadamard ? "~" : "-", b, " to ", str(d)));
  auto e = d;
  e.addEdge(a, b, t);
  const auto m = evaluate(e, {});
  if (normOf(m) < 1e-9) {
    throw Skip{};
  }
  d.addEdgeParallelAware(a, b, t);
  c.count(a == b ? "loops" : d.connected(a, b) ? "kept" : "cancelled");
  same(c, d, m, {}, "parallel-edge");
}
void probeXXminusYY(Ctx& c) {
  announce(c, "xx_minus_yy(0.7, 1.1) 0, 1");
  c.check(!negatedXXminusYY(), "negated-xx-minus-yy", "the diagram describes xx_minus_yy(-0.7, 1.1)");
}
} // namespace
int main(int argc, char** argv) {
  return runMain(argc, argv, "P15",
                 {{"construction", 20000, 250000, construction},
                  {"simplify", 12000, 150000, simplify},
                  {"graphs", 20000, 250000, graphs},
                  {"compose", 12000, 150000, compose},
                  {"identity", 8000, 100000, identity},
                  {"rational", 20000, 250000, rational},
                  {"edit", 8000, 80000, edit},
                  {"parallel", 8000, 80000, parallel},
                  {"probe-xx-minus-yy", 1, 1, probeXXminusYY, true}});
}
