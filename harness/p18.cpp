// P18: graphs, disjoint sets, symmetric matrices and circuit layers behave like their mathematical counterparts.
#include "common/gen.hpp"
#include "datastructures/DirectedAcyclicGraph.hpp"
#include "datastructures/DirectedGraph.hpp"
#include "datastructures/DisjointSet.hpp"
#include "datastructures/Layer.hpp"
#include "datastructures/SymmetricMatrix.hpp"
#include "datastructures/UndirectedGraph.hpp"
using namespace vf;
namespace {
template <class E, class F> bool throws(const F& f) {
  try {
    f();
  } catch (const E&) {
    return true;
  }
  return false;
}
// the vertices and edges a printed graph lists, by label
struct Printed {
  bool ok = false;
  std::map<std::string, std::string> label;
  std::multiset<std::pair<std::string, std::string>> edges;
};
Printed parse(const std::string& s, const std::string& head, const std::string& arrow) {
  Printed p;
  std::istringstream is(s);
  std::string l;
  std::getline(is, l);
  if (l != head + " {") {
    return p;
  }
  bool closed = false;
  while (std::getline(is, l)) {
    if (l == "}") {
      closed = true;
      continue;
    }
    const auto a = l.find(" [label=\"");
    const auto e = l.find(arrow);
    if (a != std::string::npos) {
      p.label[l.substr(2, a - 2)] = l.substr(a + 9, l.size() - a - 9 - 3);
    } else if (e != std::string::npos && l.back() == ';') {
      p.edges.emplace(l.substr(2, e - 2), l.substr(e + arrow.size(), l.size() - e - arrow.size() - 1));
    } else {
      return p;
    }
  }
  std::multiset<std::pair<std::string, std::string>> byLabel;
  for (const auto& [u, v] : p.edges) {
    if (p.label.count(u) == 0 || p.label.count(v) == 0) {
      return p;
    }
    byLabel.emplace(p.label[u], p.label[v]);
  }
  p.edges = byLabel;
  p.ok = closed;
  return p;
}
std::string name(Rng& r) { return cat("v", r.below(9)); }

// shared by plain and acyclic directed graphs
void checkDirected(Ctx& c, const qc::DirectedGraph<std::string>& g, const std::vector<std::string>& vs,
                   const std::set<std::pair<std::string, std::string>>& es) {
  c.check(g.getNVertices() == vs.size() && g.getNEdges() == es.size(), "counts",
          cat(g.getNVertices(), ",", g.getNEdges(), " instead of ", vs.size(), ",", es.size()));
  c.check(g.getVertices() == std::unordered_set<std::string>(vs.begin(), vs.end()), "vertices");
  for (const auto& u : vs) {
    std::size_t in = 0;
    std::size_t out = 0;
    for (const auto& v : vs) {
      const bool e = es.count({u, v}) != 0;
      c.check(g.isEdge(u, v) == e, "edge", u + "->" + v);
      out += e ? 1 : 0;
      in += es.count({v, u});
    }
    c.check(g.getInDegree(u) == in && g.getOutDegree(u) == out, "degrees", u);
  }
  c.check(throws<std::invalid_argument>([&] { (void)g.getInDegree("nowhere"); }) && throws<std::invalid_argument>([&] { (void)g.getOutDegree("nowhere"); }) &&
              throws<std::invalid_argument>([&] { (void)g.isEdge("nowhere", "nowhere"); }) &&
              (vs.empty() || throws<std::invalid_argument>([&] { (void)g.isEdge(vs[0], "nowhere"); })),
          "unknown-vertex-accepted");
  std::ostringstream os;
  os << g;
  const auto p = parse(os.str(), "digraph", " -> ");
  std::multiset<std::string> labels;
  for (const auto& [i, l] : p.label) {
    labels.insert(l);
  }
  c.check(p.ok && os.str() == g.toString() && labels == std::multiset<std::string>(vs.begin(), vs.end()) &&
              p.edges == std::multiset<std::pair<std::string, std::string>>(es.begin(), es.end()),
          "printed-graph", os.str());
}
template <bool ACYCLIC> void directed(Ctx& c) {
  auto& r = c.rng;
  using G = std::conditional_t<ACYCLIC, qc::DirectedAcyclicGraph<std::string>, qc::DirectedGraph<std::string>>;
  auto g = std::make_unique<G>();
  std::vector<std::string> vs;
  std::set<std::pair<std::string, std::string>> es;
  std::string d;
  auto known = [&](const std::string& v) { return std::find(vs.begin(), vs.end(), v) != vs.end(); };
  const auto steps = r.range(0, 25);
  const double orderly = r.unit(); // how often edges follow the names
  for (std::size_t i = 0; i < steps; ++i) {
    const auto k = r.below(10);
    if (k < 2) {
      const auto v = name(r);
      d += "+" + v + " ";
      announce(c, d);
      if (known(v)) {
        c.check(throws<std::invalid_argument>([&] { g->addVertex(v); }), "duplicate-vertex-accepted", v);
      } else {
        g->addVertex(v);
        vs.push_back(v);
      }
    } else if (k < 9) {
      auto u = name(r);
      auto v = name(r);
      if (r.chance(orderly) && v < u) {
        std::swap(u, v);
      }
      d += u + "->" + v + " ";
      announce(c, d);
      // would the edge close a cycle?
      std::set<std::string> reach{v};
      for (bool more = true; more;) {
        more = false;
        for (const auto& [a, b] : es) {
          more = (reach.count(a) != 0 && reach.insert(b).second) || more;
        }
      }
      if (ACYCLIC && reach.count(u) != 0) {
        c.count("cycles refused");
        if (!known(u) || !known(v)) {
          continue; // whether the refused edge leaves its vertices behind is not specified
        }
        c.check(throws<std::logic_error>([&] { g->addEdge(u, v); }), "cycle-accepted", u + "->" + v);
        continue;
      }
      g->addEdge(u, v);
      for (const auto& x : {u, v}) {
        if (!known(x)) {
          vs.push_back(x);
        }
      }
      es.emplace(u, v);
    } else {
      d += "copy ";
      auto h = r.chance(0.5) ? std::make_unique<G>(*g) : std::make_unique<G>(std::move(*g));
      g = std::move(h);
    }
    if (r.chance(0.2)) {
      checkDirected(c, *g, vs, es);
    }
  }
  announce(c, d);
  checkDirected(c, *g, vs, es);
  if constexpr (ACYCLIC) {
    for (const auto& u : vs) {
      std::set<std::string> reach{u};
      for (bool more = true; more;) {
        more = false;
        for (const auto& [a, b] : es) {
          more = (reach.count(a) != 0 && reach.insert(b).second) || more;
        }
      }
      for (const auto& v : vs) {
        c.check(g->isReachable(u, v) == (reach.count(v) != 0), "reachability", u + " to " + v);
      }
    }
    c.check(throws<std::invalid_argument>([&] { (void)g->isReachable("nowhere", "nowhere"); }), "unknown-vertex-accepted");
    const auto o = g->orderTopologically();
    std::map<std::string, std::size_t> pos;
    for (const auto& v : o) {
      pos.emplace(v, pos.size());
    }
    bool good = o.size() == vs.size() && pos.size() == vs.size();
    for (const auto& v : vs) {
      good = good && pos.count(v) != 0;
    }
    for (const auto& [u, v] : es) {
      good = good && pos[u] < pos[v];
    }
    c.check(good, "topological-order");
  }
}
void undirected(Ctx& c) {
  auto& r = c.rng;
  qc::UndirectedGraph<std::string, int> g;
  std::vector<std::string> vs;
  std::map<std::pair<std::string, std::string>, int> es; // ordered pair
  std::string d;
  auto known = [&](const std::string& v) { return std::find(vs.begin(), vs.end(), v) != vs.end(); };
  auto key = [](const std::string& u, const std::string& v) { return u < v ? std::pair{u, v} : std::pair{v, u}; };
  const auto steps = r.range(0, 25);
  for (std::size_t i = 0; i < steps; ++i) {
    if (r.chance(0.2)) {
      const auto v = name(r);
      d += "+" + v + " ";
      announce(c, d);
      if (known(v)) {
        c.check(throws<std::invalid_argument>([&] { g.addVertex(v); }), "duplicate-vertex-accepted", v);
      } else {
        g.addVertex(v);
        vs.push_back(v);
      }
      continue;
    }
    const auto u = name(r);
    const auto v = r.chance(0.1) ? u : name(r);
    const int e = static_cast<int>(r.below(1000));
    d += cat(u, "-", v, "(", e, ") ");
    announce(c, d);
    if (es.count(key(u, v)) != 0) {
      c.check(throws<std::invalid_argument>([&] { g.addEdge(u, v, e); }), "duplicate-edge-accepted", u + "-" + v);
      continue;
    }
    g.addEdge(u, v, e);
    for (const auto& x : {u, v}) {
      if (!known(x)) {
        vs.push_back(x);
      }
    }
    es[key(u, v)] = e;
  }
  const auto h = g; // copies are equal and independent
  if (r.chance(0.3)) {
    g.addEdge("other", "vertex", 1);
  }
  c.check(h.getNVertices() == vs.size() && h.getNEdges() == es.size(), "counts");
  c.check(h.getVertices() == std::unordered_set<std::string>(vs.begin(), vs.end()), "vertices");
  for (const auto& u : vs) {
    std::unordered_set<std::string> nb;
    std::unordered_set<std::pair<std::string, std::string>, qc::PairHash<std::string, std::string>> ae;
    for (const auto& v : vs) {
      const auto it = es.find(key(u, v));
      c.check(h.isAdjacent(u, v) == (it != es.end()), "adjacency", u + "-" + v);
      if (it != es.end()) {
        nb.insert(v);
        ae.emplace(u, v);
        c.check(h.getEdge(u, v) == it->second && h.getEdge(v, u) == it->second, "edge-value", u + "-" + v);
      } else {
        c.check(throws<std::invalid_argument>([&] { (void)h.getEdge(u, v); }), "missing-edge-returned", u + "-" + v);
      }
    }
    c.check(h.getNeighbours(u) == nb, "neighbours", u);
    c.check(h.getAdjacentEdges(u) == ae, "adjacent-edges", u);
    c.check(h.getDegree(u) == nb.size(), "degree", u);
  }
  c.check(throws<std::invalid_argument>([&] { (void)h.getDegree("nowhere"); }) && throws<std::invalid_argument>([&] { (void)h.getNeighbours("nowhere"); }) &&
              throws<std::invalid_argument>([&] { (void)h.getAdjacentEdges("nowhere"); }) &&
              throws<std::invalid_argument>([&] { (void)h.isAdjacent("nowhere", "nowhere"); }) &&
              throws<std::exception>([&] { (void)h.getEdge("nowhere", "nowhere"); }),
          "unknown-vertex-accepted");
  std::ostringstream os;
  os << h;
  const auto p = parse(os.str(), "graph", " -- ");
  std::multiset<std::pair<std::string, std::string>> pe;
  for (const auto& [u, v] : p.edges) {
    pe.insert(key(u, v));
  }
  std::multiset<std::pair<std::string, std::string>> exp;
  for (const auto& [k, e] : es) {
    exp.insert(k);
  }
  c.check(p.ok && p.label.size() == vs.size() && pe == exp, "printed-graph", os.str());
  const std::pair a{name(r), name(r)};
  const std::pair b{name(r), name(r)};
  const std::set<std::string> sa{a.first, a.second};
  c.check(qc::UndirectedGraph<std::string, int>::isAdjacentEdge(a, b) == (sa.count(b.first) + sa.count(b.second) > 0), "adjacent-edge-test");
}
void sets(Ctx& c) {
  auto& r = c.rng;
  const auto n = r.range(1, 20);
  std::vector<int> el;
  for (std::size_t i = 0; i < n; ++i) {
    el.push_back(static_cast<int>(i * 7 + 3) * (r.chance(0.3) ? -1 : 1));
  }
  qc::DisjointSet<int> s(el.begin(), el.end());
  std::map<int, std::set<int>> cls;
  for (const auto e : el) {
    cls[e] = {e};
  }
  std::string d = cat("n=", n, ": ");
  const auto steps = r.range(0, 30);
  for (std::size_t i = 0; i < steps; ++i) {
    const auto a = r.pick(el);
    const auto b = r.pick(el);
    if (r.chance(0.7)) {
      d += cat(a, "+", b, " ");
      announce(c, d);
      s.unionSet(a, b);
      auto u = cls[a];
      u.insert(cls[b].begin(), cls[b].end());
      for (const auto x : u) {
        cls[x] = u;
      }
    }
    const auto x = r.pick(el);
    c.check(cls[x].count(s.findSet(x)) != 0, "representative-outside-set", cat(x));
    c.check((s.findSet(a) == s.findSet(b)) == (cls[a].count(b) != 0), "same-set", cat(a, " ", b));
  }
  announce(c, d);
  for (const auto a : el) {
    for (const auto b : el) {
      c.check((s.findSet(a) == s.findSet(b)) == (cls[a].count(b) != 0), "same-set", cat(a, " ", b));
    }
  }
}
void matrices(Ctx& c) {
  auto& r = c.rng;
  const auto n = r.range(0, 12);
  const bool filled = r.chance(0.5);
  const int init = static_cast<int>(r.below(100));
  auto m = filled ? qc::SymmetricMatrix<int>(n, init) : qc::SymmetricMatrix<int>(n);
  std::map<std::pair<std::size_t, std::size_t>, int> ref;
  announce(c, cat("size ", n, " filled ", filled, " ", c.caseSeed));
  const auto steps = n == 0 ? 0 : r.range(0, 60);
  for (std::size_t i = 0; i < steps; ++i) {
    const auto a = r.below(n);
    const auto b = r.below(n);
    const int v = static_cast<int>(r.below(1000));
    m(a, b) = v;
    ref[{std::min(a, b), std::max(a, b)}] = v;
  }
  const auto k = m;
  if (n > 0) {
    m(n - 1, 0) = -1;
  }
  c.check(k.size() == n, "matrix-size");
  for (std::size_t i = 0; i < n; ++i) {
    for (std::size_t j = 0; j < n; ++j) {
      const auto it = ref.find({std::min(i, j), std::max(i, j)});
      c.check(k(i, j) == (it != ref.end() ? it->second : filled ? init : 0), "matrix-entry", cat(i, ",", j));
    }
  }
}

// one gate applied to every listed qubit
bool isGlobal(const Op& o) { return o.k == Op::Gate && gateInfo(o.type).targets == 1 && o.t.size() > 1; }
std::vector<Op> expand(const Op& o) {
  if (!isGlobal(o)) {
    return {o};
  }
  std::vector<Op> r;
  for (const auto t : o.t) {
    r.push_back(o);
    r.back().t = {t};
  }
  return r;
}
Circ layered(Rng& r, bool& mixed) {
  GenCfg g;
  g.n = static_cast<unsigned>(r.range(1, 5));
  g.nops = 1;
  g.maxCtl = 2;
  g.ctlProb = 0.4;
  g.compound = r.chance(0.3) ? 0.1 : 0;
  mixed = r.chance(0.2);
  std::size_t bit = 0;
  static const std::vector<std::vector<qc::OpType>> pools = {
      {}, {qc::Z, qc::RZ, qc::X, qc::H}, {qc::Z, qc::RY, qc::RZ}, {qc::X, qc::Z, qc::S, qc::Sdg, qc::H}, {qc::RZZ, qc::RXX, qc::RX, qc::SWAP}};
  g.gates = r.pick(pools);
  if (g.n == 1) {
    g.gates = r.chance(0.5) ? std::vector<qc::OpType>{} : std::vector<qc::OpType>{qc::Z, qc::RZ, qc::X, qc::H};
  }
  Circ c;
  c.n = g.n;
  const auto k = r.range(1, 14);
  auto inverse = [](Op o) {
    for (auto& p : o.p) {
      p = -p;
    }
    switch (o.type) {
    case qc::S:
      o.type = qc::Sdg;
      break;
    case qc::Sdg:
      o.type = qc::S;
      break;
    case qc::T:
      o.type = qc::Tdg;
      break;
    case qc::Tdg:
      o.type = qc::T;
      break;
    case qc::iSWAP:
      o.type = qc::iSWAPdg;
      break;
    default:
      break;
    }
    return o;
  };
  while (c.ops.size() < k) {
    if (!c.ops.empty() && r.chance(0.3)) {
      const auto o = r.pick(c.ops);
      if (o.k == Op::Measure) {
        continue;
      }
      c.ops.push_back(r.chance(0.6) ? inverse(o) : o);
      continue;
    }
    if (g.n > 1 && r.chance(0.2)) {
      Op o;
      o.k = Op::Gate;
      o.type = r.pick(std::vector<qc::OpType>{qc::RY, qc::RZ, qc::H, qc::X, qc::RX});
      o.t = pickQubits(r, g.n, r.range(2, g.n));
      std::sort(o.t.begin(), o.t.end());
      if (gateInfo(o.type).params == 1) {
        o.p = {randAngle(r)};
      }
      c.ops.push_back(o);
      continue;
    }
    if (mixed && r.chance(0.15)) {
      Op o;
      o.k = r.chance(0.6) ? Op::Measure : Op::Reset;
      o.type = o.k == Op::Measure ? qc::Measure : qc::Reset;
      o.t = {static_cast<unsigned>(r.below(g.n))};
      if (o.k == Op::Measure) {
        o.bits = {bit++};
      }
      c.ops.push_back(o);
      continue;
    }
    c.ops.push_back(genOp(r, g));
  }
  c.nc = bit;
  return c;
}
qc::QuantumComputation construct(const Circ& c) {
  qc::QuantumComputation q(c.n, c.nc);
  for (const auto& o : c.ops) {
    if (isGlobal(o)) {
      q.emplace_back<qc::StandardOperation>(qc::Targets(o.t.begin(), o.t.end()), o.type, o.p);
    } else {
      q.emplace_back(toOperation(o));
    }
  }
  return q;
}
Ensemble computed(const Circ& c, const std::vector<std::size_t>& order, const Vec& in) {
  Circ x;
  x.n = c.n;
  x.nc = c.nc;
  for (const auto i : order) {
    for (const auto& o : expand(c.ops[i])) {
      x.ops.push_back(o);
    }
  }
  return ensemble(runBranches(x, in));
}
Vec stateOf(Rng& r, unsigned n) {
  Vec v(std::size_t{1} << n);
  for (auto& x : v) {
    x = {r.uniform(-1, 1), r.uniform(-1, 1)};
  }
  const double s = std::sqrt(norm2(v));
  for (auto& x : v) {
    x /= s;
  }
  return v;
}
void layers(Ctx& c) {
  auto& r = c.rng;
  bool mixed = false;
  const auto ci = layered(r, mixed);
  const bool commutable = r.chance(0.75);
  announce(c, cat(commutable ? "commuting " : "ordered ", str(ci)));
  const auto q = construct(ci);
  std::map<const qc::Operation*, std::size_t> index;
  for (std::size_t i = 0; i < q.size(); ++i) {
    index[q.at(i).get()] = i;
  }
  auto layer = std::make_unique<qc::Layer>(q, commutable);
  std::vector<std::size_t> order;
  std::vector<bool> done(ci.ops.size(), false);
  // an operation without predecessors on any of its qubits can start
  {
    std::set<std::size_t> ready;
    for (const auto& v : layer->getExecutableSet()) {
      ready.insert(index.at(v->getOperation()));
    }
    std::set<unsigned> seen;
    for (std::size_t i = 0; i < q.size(); ++i) {
      bool first = true;
      for (const auto u : q.at(i)->getUsedQubits()) {
        first = seen.insert(u).second && first;
      }
      c.check(!first || ready.count(i) != 0, "first-operation-not-executable", cat(i));
    }
  }
  const int style = static_cast<int>(r.below(4));
  std::string trace;
  while (!layer->getExecutableSet().empty()) {
    std::vector<std::pair<std::size_t, std::shared_ptr<qc::Layer::DAGVertex>>> ready;
    for (const auto& v : layer->getExecutableSet()) {
      if (!c.check(index.count(v->getOperation()) != 0, "unknown-operation")) {
        return;
      }
      ready.emplace_back(index.at(v->getOperation()), v);
      c.check(v->isExecutable() && !v->isExecuted(), "executable-set-member-not-executable");
    }
    std::sort(ready.begin(), ready.end(), [](const auto& a, const auto& b) { return a.first < b.first; });
    // queries
    if (r.chance(0.3)) {
      const auto& o = *q.at(ready[r.below(ready.size())].first);
      std::multiset<std::size_t> exp;
      for (const auto& [i, v] : ready) {
        if (q.at(i)->getType() == o.getType() && q.at(i)->getNcontrols() == o.getNcontrols()) {
          exp.insert(i);
        }
      }
      std::multiset<std::size_t> got;
      for (const auto& v : layer->getExecutablesOfType(o.getType(), o.getNcontrols())) {
        got.insert(index.at(v->getOperation()));
      }
      c.check(got == exp, "executables-of-type", qc::toString(o.getType()));
      static const std::set<qc::OpType> supported = {qc::I, qc::H, qc::X, qc::Y, qc::Z, qc::S, qc::Sdg, qc::T, qc::Tdg, qc::V, qc::Vdg, qc::U, qc::U2, qc::P, qc::SX, qc::SXdg, qc::RX, qc::RY, qc::RZ};
      const auto type = o.getType();
      const auto nc = o.getNcontrols();
      if (supported.count(type) == 0 || nc != 1) {
        c.check(throws<std::invalid_argument>([&] { (void)layer->constructInteractionGraph(type, nc); }), "unsupported-interaction-graph");
      } else {
        std::map<std::pair<unsigned, unsigned>, std::size_t> edges;
        bool simple = true;
        for (const auto i : exp) {
          const auto used = q.at(i)->getUsedQubits();
          simple = simple && used.size() == 2 && edges.emplace(std::pair{*used.begin(), *used.rbegin()}, i).second;
        }
        if (simple) {
          const auto g = layer->constructInteractionGraph(type, nc);
          c.check(g.getNEdges() == edges.size(), "interaction-graph-edges");
          for (const auto& [e, i] : edges) {
            c.check(index.at(g.getEdge(e.first, e.second)->getOperation()) == i, "interaction-graph-edge");
          }
          c.count("interaction graphs");
        }
      }
    }
    auto [i, v] = style == 0 ? ready.front() : style == 1 ? ready.back() : ready[r.below(ready.size())];
    ready.clear();
    v->execute();
    trace += cat(i, " ");
    c.check(v->isExecuted() && !v->isExecutable() && throws<std::logic_error>([&, w = v] { w->execute(); }), "executed-twice", trace);
    if (!c.check(!done[i], "executed-twice", trace)) {
      return;
    }
    done[i] = true;
    order.push_back(i);
    if (r.chance(0.03)) {
      // the set of executable operations belongs to whoever holds the layer
      if (r.chance(0.5)) {
        auto l = std::make_unique<qc::Layer>(std::move(*layer));
        layer = std::move(l);
      } else {
        auto l = std::make_unique<qc::Layer>(*layer);
        layer = std::move(l);
      }
      c.count("layers moved or copied");
    }
  }
  if (!c.check(order.size() == ci.ops.size(), "operations-never-executable", trace)) {
    return;
  }
  std::vector<std::size_t> id(order.size());
  for (std::size_t i = 0; i < id.size(); ++i) {
    id[i] = i;
  }
  c.count(order == id ? "original order" : "other orders");
  if (order == id) {
    return;
  }
  const auto in = stateOf(r, ci.n);
  if (!mixed) {
    // exact, including the relative phase between two inputs
    auto run = [&](const std::vector<std::size_t>& o) {
      Vec v = in;
      for (const auto i : o) {
        for (const auto& e : expand(ci.ops[i])) {
          applyUnitary(v, e);
        }
      }
      return v;
    };
    const double dd = dist(run(order), run(id));
    c.check(dd < 1e-6, commutable ? "schedule-changes-computation" : "ordered-schedule-changes-computation", cat("order ", trace, " distance ", dd));
    return;
  }
  const double dd = dist(computed(ci, order, in), computed(ci, id, in));
  c.check(dd < 1e-6, "schedule-changes-measured-computation", cat("order ", trace, " distance ", dd));
}
} // namespace
int main(int argc, char** argv) {
  return runMain(argc, argv, "P18",
                 {{"directed", 20000, 200000, directed<false>},
                  {"acyclic", 20000, 200000, directed<true>},
                  {"undirected", 20000, 200000, undirected},
                  {"sets", 20000, 200000, sets},
                  {"matrices", 5000, 50000, matrices},
                  {"layers", 60000, 600000, layers}});
}
