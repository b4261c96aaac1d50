// P06: serialisation, transfer and Graphviz export represent the same object.
#include "common/ddutil.hpp"
#include "dd/Export.hpp"
#include "dd/GateMatrixDefinitions.hpp"

#include <fstream>
using namespace vf;
namespace {
constexpr double TOL = 1e-9;
dd::VectorDD makeState(dd::Package& dd, const Vec& v) { return dd.makeStateFromVector(dd::CVec(v.begin(), v.end())); }

Mat randMatrix(Rng& r, unsigned n) {
  const std::size_t d = std::size_t{1} << n;
  Mat m(d);
  const auto kind = r.below(6);
  if (kind == 0) {
    for (auto& x : m.a) {
      x = C(r.uniform(-1, 1), r.uniform(-1, 1));
    }
  } else if (kind == 1) {
    for (auto& x : m.a) {
      x = r.chance(0.3) ? C(r.uniform(-1, 1), r.uniform(-1, 1)) : C(0);
    }
  } else if (kind == 2) {
    for (auto& x : m.a) {
      x = C(static_cast<double>(r.below(3)) - 1, r.chance(0.3) ? 1 : 0);
    }
  } else if (kind == 3 && n >= 2) { // blocks taken from a small set: heavy sharing in all positions
    const std::size_t h = d / 2;
    std::vector<Mat> blocks;
    const auto nb = r.range(1, 3);
    for (std::size_t i = 0; i < nb; ++i) {
      blocks.push_back(randMatrix(r, n - 1));
    }
    blocks.push_back(Mat::id(h));
    blocks.push_back(Mat(h));
    for (int i = 0; i < 2; ++i) {
      for (int j = 0; j < 2; ++j) {
        const auto& b = r.pick(blocks);
        const C s = r.chance(0.6) ? C(1) : C(r.uniform(-1, 1), r.uniform(-1, 1));
        for (std::size_t x = 0; x < h; ++x) {
          for (std::size_t y = 0; y < h; ++y) {
            m.at(static_cast<std::size_t>(i) * h + x, static_cast<std::size_t>(j) * h + y) = s * b.at(x, y);
          }
        }
      }
    }
  } else { // unitary
    Circ c;
    GenCfg g;
    g.n = n;
    g.nops = r.range(0, 8);
    c = genCirc(r, g);
    m = unitaryOf(c);
    if (r.chance(0.3)) {
      m = scale(m, C(r.uniform(-1, 1), r.uniform(-1, 1)));
    }
  }
  return m;
}
Vec randVector(Rng& r, unsigned n) {
  if (r.chance(0.4)) {
    GenCfg g;
    g.n = n;
    g.nops = r.range(0, 12);
    return runUnitary(genCirc(r, g), basis(n, r.below(std::size_t{1} << n)));
  }
  if (n >= 2 && r.chance(0.5)) { // shared halves
    auto a = randVector(r, n - 1);
    auto b = r.chance(0.5) ? a : randVector(r, n - 1);
    const C s(r.uniform(-1, 1), r.uniform(-1, 1));
    Vec v = a;
    for (auto& x : b) {
      v.push_back(x * s);
    }
    const double nn = std::sqrt(norm2(v));
    for (auto& x : v) {
      x /= nn;
    }
    return v;
  }
  return randState(r, n);
}
std::string tmpFile() {
  static std::string dir = [] {
    std::string t = "/tmp/vfp06XXXXXX";
    if (mkdtemp(t.data()) == nullptr) {
      throw std::runtime_error("mkdtemp");
    }
    static std::string keep = t;
    std::atexit([] {
      std::remove((keep + "/f").c_str());
      ::rmdir(keep.c_str());
    });
    return t;
  }();
  return dir + "/f";
}
template <class Node> dd::Edge<Node> roundTrip(Ctx& c, dd::Package& to, const dd::Edge<Node>& e, bool binary, bool file) {
  if (file) {
    const auto f = tmpFile();
    dd::serialize(e, f, binary);
    c.count("files");
    return to.template deserialize<Node>(f, binary);
  }
  std::stringstream s(std::ios::in | std::ios::out | std::ios::binary);
  dd::serialize(e, s, binary);
  c.count("bytes", s.str().size());
  return to.template deserialize<Node>(s, binary);
}
// every node reachable through non-zero edges
template <class Node> void reach(const dd::Edge<Node>& e, std::set<const Node*>& s) {
  if (e.isTerminal() || !s.insert(e.p).second) {
    return;
  }
  for (const auto& x : e.p->e) {
    if (!x.w.approximatelyZero()) {
      reach(x, s);
    }
  }
}

// ------------------------------------------------------------------ reading formatted numbers
struct BadFormat {};
struct Reader {
  std::string s;
  std::size_t i = 0;
  bool at(const std::string& t) const { return s.compare(i, t.size(), t) == 0; }
  bool eat(const std::string& t) {
    if (at(t)) {
      i += t.size();
      return true;
    }
    return false;
  }
  bool done() const { return i == s.size(); }
  bool digit() const { return i < s.size() && (std::isdigit(static_cast<unsigned char>(s[i])) != 0 || s[i] == '.'); }
  double num() {
    std::size_t used = 0;
    if (!digit()) {
      throw BadFormat{};
    }
    const double v = std::stod(s.substr(i), &used);
    i += used;
    return v;
  }
  // one signed real or imaginary number
  C term(bool first) {
    double sign = 1;
    if (eat("-")) {
      sign = -1;
    } else if (!eat("+") && !first) {
      throw BadFormat{};
    }
    double v = 1;
    bool any = false;
    bool imag = false;
    if (digit()) {
      v = num();
      any = true;
    }
    if (eat("π")) {
      v *= M_PI;
      any = true;
    }
    if (eat("i")) {
      imag = true;
      any = true;
    }
    if (!any) {
      throw BadFormat{};
    }
    if (eat("/")) {
      v /= denominator();
    }
    return imag ? C(0, sign * v) : C(sign * v, 0);
  }
  double denominator() {
    if (eat("√2")) {
      return std::sqrt(2.0);
    }
    if (eat("(")) {
      const double k = num();
      if (!eat("√2)")) {
        throw BadFormat{};
      }
      return k * std::sqrt(2.0);
    }
    return num();
  }
  C cartesian() {
    C v = term(true);
    if (eat("(1+i)")) {
      v *= C(1, 1);
    } else if (eat("(1-i)")) {
      v *= C(1, -1);
    } else if (!done() && (s[i] == '+' || s[i] == '-')) {
      v += term(false);
    }
    return v;
  }
  C phase() { // after "ℯ("
    const double sign = eat("-") ? -1 : 1;
    if (!eat("iπ")) {
      throw BadFormat{};
    }
    double x = 1;
    if (eat(" ")) {
      if (eat("π")) {
        x = M_PI;
      } else {
        x = num();
        if (eat("π")) {
          x *= M_PI;
        }
      }
    }
    if (eat("/")) {
      x /= denominator();
    }
    if (!eat(")")) {
      throw BadFormat{};
    }
    return std::polar(1.0, sign * x * M_PI);
  }
  C polar() {
    if (eat("ℯ(")) {
      return phase();
    }
    C v = term(true);
    if (eat(" ℯ(")) {
      v *= phase();
    }
    return v;
  }
};
bool readsAs(const std::string& s, C v, bool polar) {
  try {
    Reader r{s};
    const C got = polar ? r.polar() : r.cartesian();
    return r.done() && std::abs(got - v) < 2e-5 * std::max(1.0, std::abs(v));
  } catch (const BadFormat&) {
    return false;
  }
}
std::string attribute(const std::string& line, const std::string& name, std::size_t from) {
  const auto a = line.find(name + "=\"", from);
  if (a == std::string::npos) {
    return "<none>";
  }
  const auto b = a + name.size() + 2;
  return line.substr(b, line.find('"', b) - b);
}
template <class Node> void dot(Ctx& c, const dd::Edge<Node>& e, Rng& r) {
  const bool colored = r.chance(0.5);
  const bool labels = r.chance(0.5);
  const bool classic = r.chance(0.5);
  const bool memory = r.chance(0.3);
  const bool polar = r.chance(0.5);
  std::ostringstream os;
  dd::toDot(e, os, colored, labels, classic, memory, polar);
  c.count("dot-exports");
  const std::string opt = cat(" colored ", colored, " labels ", labels, " classic ", classic, " memory ", memory, " polar ", polar);
  std::set<const Node*> nodes;
  reach(e, nodes);
  struct E {
    int idx;
    std::string to;
    std::string weight;
  };
  std::map<std::string, std::size_t> declared;
  std::map<std::string, std::string> level;
  std::map<std::string, std::vector<E>> edges;
  std::string root;
  std::string rootWeight;
  std::istringstream is(os.str());
  std::string line;
  bool closed = false;
  std::size_t roots = 0;
  while (std::getline(is, line)) {
    if (line.rfind("digraph", 0) == 0 || line.rfind("root [", 0) == 0 || line.rfind("t [", 0) == 0) {
      continue;
    }
    if (line == "}") {
      closed = true;
      continue;
    }
    if (line.rfind("root->", 0) == 0) {
      root = line.substr(6, line.find('[') - 6);
      rootWeight = attribute(line, "tooltip", 0);
      ++roots;
      continue;
    }
    const auto br = line.find('[');
    const auto head = line.substr(0, br);
    const auto arrow = head.find("->");
    if (arrow == std::string::npos) {
      ++declared[head];
      level[head] = attribute(line, "tooltip", line.rfind("</table></font>>"));
    } else {
      const auto col = head.find(':');
      const auto col2 = head.find(':', col + 1);
      edges[head.substr(0, col)].push_back({std::stoi(head.substr(col + 1, col2 - col - 1)), head.substr(arrow + 2), attribute(line, "tooltip", br)});
    }
  }
  if (!c.check(closed && roots == 1, "dot-malformed", opt)) {
    return;
  }
  std::size_t total = 0;
  for (const auto& [k, n] : declared) {
    total += n;
    c.check(n == 1, "dot-name-declared-twice", cat("name ", k, " ", n, " times for ", nodes.size(), " nodes", opt));
  }
  c.check(total == nodes.size(), "dot-node-count", cat(total, " declarations for ", nodes.size(), " nodes", opt));
  auto weightOk = [&](const std::string& t, const dd::Complex& w) {
    const C v = static_cast<std::complex<double>>(w);
    if (memory) {
      return readsAs(t, v, false) || std::abs(v) < 1e-3 || [&] { // four digits
        Reader rd{t};
        try {
          return std::abs(rd.cartesian() - v) < 1e-3 * std::max(1., std::abs(v));
        } catch (const BadFormat&) {
          return false;
        }
      }();
    }
    return readsAs(t, v, polar);
  };
  std::map<std::string, const Node*> bind;
  std::function<void(const dd::Edge<Node>&, const std::string&, const std::string&)> walk =
      [&](const dd::Edge<Node>& x, const std::string& name, const std::string& weight) {
        c.check(weightOk(weight, x.w), "dot-weight", cat("weight ", x.w, " shown as ", weight, opt));
        if (x.isTerminal()) {
          c.check(name == "t", "dot-terminal", name + opt);
          return;
        }
        const auto it = bind.find(name);
        if (it != bind.end()) {
          c.check(it->second == x.p, "dot-name-shared-by-nodes", cat("name ", name, " for ", nodes.size(), " nodes", opt));
          return;
        }
        bind[name] = x.p;
        if (!memory) {
          c.check(level[name] == cat("q", x.p->v), "dot-level", level[name] + opt);
        }
        const auto& out = edges[name];
        std::size_t expected = 0;
        for (std::size_t i = 0; i < x.p->e.size(); ++i) {
          if (x.p->e[i].w.approximatelyZero()) {
            continue;
          }
          ++expected;
          const E* found = nullptr;
          for (const auto& y : out) {
            if (y.idx == static_cast<int>(i)) {
              found = &y;
            }
          }
          if (c.check(found != nullptr, "dot-edge-missing", cat("child ", i, opt))) {
            walk(x.p->e[i], found->to, found->weight);
          }
        }
        c.check(out.size() == expected, "dot-edge-count", cat(out.size(), " edges instead of ", expected, opt));
      };
  walk(e, root, rootWeight);
}
void vectors(Ctx& c) {
  auto& r = c.rng;
  const auto n = static_cast<unsigned>(r.range(1, 6));
  dd::Package p1(n + r.below(2), randConfig(r));
  dd::Package p2(n + r.below(2), randConfig(r));
  auto v = randVector(r, n);
  announce(c, cat("n=", n, " ", vecStr(v)));
  auto e = makeState(p1, v);
  if (r.chance(0.3)) {
    const C s(r.uniform(-3, 3), r.uniform(-3, 3));
    for (auto& x : v) {
      x *= s;
    }
    e.w = p1.cn.lookup(e.w * dd::ComplexValue(s.real(), s.imag()));
  }
  p1.incRef(e);
  // something else in the second package first
  p2.incRef(makeState(p2, randVector(r, n)));
  for (int b = 0; b < 2; ++b) {
    const bool file = r.chance(0.05);
    const auto same = roundTrip(c, p1, e, b == 1, file);
    const std::string k = b ? "binary" : "text";
    c.check(same.p == e.p, "vector-same-package-node:" + k);
    c.check(dist(toVec(same), v) < TOL, "vector-same-package-value:" + k, vecStr(toVec(same)));
    const auto other = roundTrip(c, p2, e, b == 1, file);
    c.check(dist(toVec(other), v) < TOL, "vector-other-package-value:" + k, vecStr(toVec(other)));
    c.check(other.size() == e.size(), "vector-size:" + k);
    p2.incRef(other);
    p2.garbageCollect(true);
    c.check(dist(toVec(other), v) < TOL, "vector-after-collection:" + k);
    // the copy behaves like any other diagram
    const auto sum = p2.add(other, other);
    Vec twice = v;
    for (auto& x : twice) {
      x *= 2;
    }
    c.check(dist(toVec(sum), twice) < TOL, "vector-use-after-read:" + k);
  }
  auto t = p2.transfer(e);
  c.check(dist(toVec(t), v) < TOL, "vector-transfer", vecStr(toVec(t)));
  c.check(t.size() == e.size(), "vector-transfer-size");
  auto back = p1.transfer(t);
  c.check(back.p == e.p, "vector-transfer-back");
  dot(c, e, r);
  c.check(dist(toVec(e), v) < TOL, "vector-original-changed");
}
void matrices(Ctx& c) {
  auto& r = c.rng;
  const auto n = static_cast<unsigned>(r.range(1, 4));
  dd::Package p1(n + r.below(2), randConfig(r));
  dd::Package p2(n + r.below(2), randConfig(r));
  const auto m = randMatrix(r, n);
  announce(c, cat("n=", n, " ", vecStr(m.a)));
  auto e = p1.makeDDFromMatrix(toCMat(m));
  p1.incRef(e);
  p2.incRef(p2.makeDDFromMatrix(toCMat(randMatrix(r, n))));
  for (int b = 0; b < 2; ++b) {
    const bool file = r.chance(0.05);
    const std::string k = b ? "binary" : "text";
    const auto same = roundTrip(c, p1, e, b == 1, file);
    c.check(same.p == e.p, "matrix-same-package-node:" + k);
    c.check(dist(toMat(same, n), m) < TOL, "matrix-same-package-value:" + k);
    const auto other = roundTrip(c, p2, e, b == 1, file);
    c.check(dist(toMat(other, n), m) < TOL, "matrix-other-package-value:" + k);
    p2.incRef(other);
    p2.garbageCollect(true);
    c.check(dist(toMat(other, n), m) < TOL, "matrix-after-collection:" + k);
    c.check(dist(toMat(p2.multiply(other, other), n), m * m) < 1e-7, "matrix-use-after-read:" + k);
  }
  auto t = p2.transfer(e);
  c.check(dist(toMat(t, n), m) < TOL, "matrix-transfer");
  auto back = p1.transfer(t);
  c.check(back.p == e.p, "matrix-transfer-back");
  dot(c, e, r);
  c.check(dist(toMat(e, n), m) < TOL, "matrix-original-changed");
}
// diagrams much larger than one allocation chunk
void large(Ctx& c) {
  auto& r = c.rng;
  const auto n = static_cast<unsigned>(r.range(8, 11));
  dd::DDPackageConfig cfg;
  cfg.utVecInitialAllocationSize = std::size_t{1} << r.range(4, 11);
  dd::Package p1(n, cfg);
  dd::Package p2(n, randConfig(r));
  Vec v(std::size_t{1} << n);
  for (auto& x : v) {
    x = C(r.uniform(-1, 1), r.uniform(-1, 1));
  }
  const double s = std::sqrt(norm2(v));
  for (auto& x : v) {
    x /= s;
  }
  announce(c, cat("dense random vector on ", n, " qubits, case ", c.caseSeed));
  auto e = makeState(p1, v);
  const bool binary = r.chance(0.5);
  c.check(dist(toVec(roundTrip(c, p2, e, binary, false)), v) < TOL, "large-vector-other-package", binary ? "binary" : "text");
  c.check(dist(toVec(p2.transfer(e)), v) < TOL, "large-vector-transfer");
  std::size_t nodes = e.size();
  c.count("large-nodes", nodes);
  dot(c, e, r);
}
void special(Ctx& c) {
  // terminal diagrams and the smallest ones, all formats
  dd::Package p1(3);
  dd::Package p2(3);
  announce(c, "identity, zero, scaled identity, one qubit");
  std::vector<std::pair<dd::MatrixDD, Mat>> ms;
  ms.emplace_back(dd::Package::makeIdent(), Mat::id(4));
  auto scaled = dd::Package::makeIdent();
  scaled.w = p1.cn.lookup(0.3, -0.7);
  ms.emplace_back(scaled, scale(Mat::id(4), C(0.3, -0.7)));
  ms.emplace_back(dd::MatrixDD::zero(), Mat(4));
  for (unsigned q = 0; q < 2; ++q) {
    ms.emplace_back(p1.makeGateDD(dd::opToSingleQubitGateMatrix(qc::H), q), q == 0 ? kron(Mat::id(2), gateMatrix(qc::H, {})) : kron(gateMatrix(qc::H, {}), Mat::id(2)));
  }
  for (auto& [e, m] : ms) {
    for (int b = 0; b < 2; ++b) {
      const auto x = roundTrip(c, p2, e, b == 1, false);
      c.check(x.p != nullptr || e.p == nullptr, "special-null-node", cat(e.w));
      if (x.p != nullptr || e.p == nullptr) {
        c.check(dist(toMat(x, 2), m) < TOL, "special-value", cat(e.w, " ", b));
      }
    }
    auto t = p2.transfer(e);
    c.check(dist(toMat(t, 2), m) < TOL, "special-transfer", cat(e.w));
    for (int k = 0; k < 8; ++k) {
      dot(c, e, c.rng);
    }
  }
  for (const int k : {0, 1, 2}) {
    auto e = k == 0 ? p1.makeZeroState(1) : makeState(p1, k == 1 ? Vec{C(0.6, 0), C(0, 0.8)} : Vec{0, 1});
    const auto v = toVec(e);
    for (int b = 0; b < 2; ++b) {
      c.check(dist(toVec(roundTrip(c, p2, e, b == 1, false)), v) < TOL, "special-vector");
    }
    c.check(dist(toVec(p2.transfer(e)), v) < TOL, "special-vector-transfer");
    dot(c, e, c.rng);
  }
  // a file of another version is refused
  for (int b = 0; b < 2; ++b) {
    std::stringstream s;
    dd::serialize(p1.makeZeroState(2), s, b == 1);
    auto t = s.str();
    t[0] = static_cast<char>(t[0] + 1);
    std::stringstream s2(t);
    bool threw = false;
    try {
      p2.deserialize<dd::vNode>(s2, b == 1);
    } catch (const std::exception&) {
      threw = true;
    }
    c.check(threw, "other-version-accepted");
  }
}
void numbers(Ctx& c) {
  auto& r = c.rng;
  // formatted numbers denote their value; plain numbers are read back exactly enough
  auto pick = [&]() -> double {
    const double sg = r.chance(0.5) ? 1 : -1;
    switch (r.below(7)) {
    case 0:
      return 0;
    case 1:
      return sg * static_cast<double>(r.range(1, 12)) / static_cast<double>(r.range(1, 12));
    case 2:
      return sg * static_cast<double>(r.range(1, 12)) / static_cast<double>(r.range(1, 12)) * std::sqrt(0.5);
    case 3:
      return sg * static_cast<double>(r.range(1, 12)) / static_cast<double>(r.range(1, 12)) * M_PI;
    case 4:
      return sg * std::pow(10, r.uniform(-9, 3));
    case 5:
      return sg;
    default:
      return r.uniform(-2, 2);
    }
  };
  const double re = pick();
  const double im = r.chance(0.2) ? re : r.chance(0.2) ? -re : pick();
  announce(c, cat("number ", re, " ", im));
  const auto f = dd::ComplexValue::toString(re, im, true);
  c.check(readsAs(f, C(re, im), false), "formatted-number", cat(re, " ", im, " shown as ", f));
  static dd::Package p(1);
  if (r.chance(0.01)) {
    p.garbageCollect(true);
  }
  const auto w = p.cn.lookup(re, im);
  const C wv = static_cast<std::complex<double>>(w);
  const auto pf = dd::conditionalFormat(w, true);
  c.check(readsAs(pf, wv, true), "polar-number", cat(w, " shown as ", pf));
  const auto cf = dd::conditionalFormat(w, false);
  c.check(readsAs(cf, wv, false), "cartesian-number", cat(w, " shown as ", cf));
  std::stringstream s;
  const dd::ComplexValue a{re, im};
  a.writeBinary(s);
  dd::ComplexValue b{};
  b.readBinary(s);
  c.check(b == a, "binary-number");
  const auto mag = std::abs(wv);
  c.check(std::abs(dd::ComplexNumbers::mag(w) - mag) < 1e-12 * std::max(1., mag) && std::abs(dd::ComplexNumbers::mag2(w) - mag * mag) < 1e-9 * std::max(1., mag * mag), "magnitude");
}
} // namespace
int main(int argc, char** argv) {
  return runMain(argc, argv, "P06",
                 {{"special", 1, 1, special, true},
                  {"vectors", 2400, 150000, vectors},
                  {"matrices", 2000, 150000, matrices},
                  {"large", 32, 600, large},
                  {"numbers", 20000, 500000, numbers}});
}
