// P17: neutral-atom computations track positions, validate schedules and print exactly what they contain.
#include "common/gen.hpp"
#include "na/NAComputation.hpp"
#include "na/entities/Atom.hpp"
#include "na/entities/Location.hpp"
#include "na/entities/Zone.hpp"
#include "na/operations/GlobalCZOp.hpp"
#include "na/operations/GlobalRYOp.hpp"
#include "na/operations/LoadOp.hpp"
#include "na/operations/LocalRZOp.hpp"
#include "na/operations/LocalUOp.hpp"
#include "na/operations/MoveOp.hpp"
#include "na/operations/StoreOp.hpp"
using namespace vf;
namespace {
using na::Location;
std::string num(double v, int prec) {
  char b[400];
  std::snprintf(b, sizeof b, "%.*f", prec, v);
  return b;
}
std::string locStr(const Location& l) { return "(" + num(l.x, 3) + ", " + num(l.y, 3) + ")"; }

struct MOp {
  enum Kind { Load, Store, Move, RZ, U, RY, CZ } k = Load;
  std::vector<unsigned> atoms; // or zones
  bool hasTargets = false;
  std::vector<Location> targets;
  std::vector<double> params;
};
bool shuttling(const MOp& o) { return o.k == MOp::Load || o.k == MOp::Store || o.k == MOp::Move; }
struct Model {
  std::vector<std::string> atoms;
  std::vector<std::string> zones;
  std::vector<std::optional<Location>> init;
  std::vector<MOp> ops;
};
std::string opStr(const Model& m, const MOp& o) {
  static const char* const names[] = {"load", "store", "move", "rz", "u", "ry", "cz"};
  std::string s = std::string("@+ ") + names[o.k];
  auto line = [&](std::size_t i) {
    std::string l;
    if (shuttling(o)) {
      if (o.hasTargets) {
        l += locStr(o.targets[i]) + " ";
      }
    } else {
      for (const auto p : o.params) {
        l += num(p, 5) + " ";
      }
    }
    const bool zone = o.k == MOp::RY || o.k == MOp::CZ;
    return l + (zone ? m.zones : m.atoms)[o.atoms[i]];
  };
  if (o.atoms.size() == 1) {
    return s + " " + line(0);
  }
  s += " [\n";
  for (std::size_t i = 0; i < o.atoms.size(); ++i) {
    s += "    " + line(i) + "\n";
  }
  return s + "]";
}
std::unique_ptr<na::NAComputation> build(const Model& m, Rng& r, std::vector<const na::Atom*>& atoms, std::vector<const na::Zone*>& zones) {
  auto q = std::make_unique<na::NAComputation>();
  for (std::size_t i = 0; i < m.atoms.size(); ++i) {
    atoms.push_back(&q->emplaceBackAtom(m.atoms[i]));
    if (r.chance(0.5) && m.init[i]) {
      q->emplaceInitialLocation(*atoms[i], *m.init[i]);
    }
  }
  for (const auto& z : m.zones) {
    zones.push_back(&q->emplaceBackZone(z));
  }
  for (std::size_t i = 0; i < m.atoms.size(); ++i) {
    if (m.init[i] && q->getInitialLocations().count(atoms[i]) == 0) {
      q->emplaceInitialLocation(*atoms[i], m.init[i]->x, m.init[i]->y);
    }
  }
  for (const auto& o : m.ops) {
    std::vector<const na::Atom*> a;
    std::vector<const na::Zone*> z;
    for (const auto i : o.atoms) {
      if (o.k == MOp::RY || o.k == MOp::CZ) {
        z.push_back(zones[i]);
      } else {
        a.push_back(atoms[i]);
      }
    }
    const bool one = o.atoms.size() == 1 && r.chance(0.5);
    switch (o.k) {
    case MOp::Load:
      if (o.hasTargets) {
        one ? q->emplaceBack<na::LoadOp>(*a[0], o.targets[0]) : q->emplaceBack<na::LoadOp>(a, o.targets);
      } else {
        one ? q->emplaceBack<na::LoadOp>(*a[0]) : q->emplaceBack<na::LoadOp>(a);
      }
      break;
    case MOp::Store:
      if (o.hasTargets) {
        one ? q->emplaceBack<na::StoreOp>(*a[0], o.targets[0]) : q->emplaceBack<na::StoreOp>(a, o.targets);
      } else {
        one ? q->emplaceBack(na::StoreOp(*a[0])) : q->emplaceBack<na::StoreOp>(a);
      }
      break;
    case MOp::Move:
      one ? q->emplaceBack<na::MoveOp>(*a[0], o.targets[0]) : q->emplaceBack(na::MoveOp(a, o.targets));
      break;
    case MOp::RZ:
      one ? q->emplaceBack<na::LocalRZOp>(*a[0], o.params[0]) : q->emplaceBack<na::LocalRZOp>(a, o.params[0]);
      break;
    case MOp::U:
      one ? q->emplaceBack<na::LocalUOp>(*a[0], o.params[0], o.params[1], o.params[2])
          : q->emplaceBack<na::LocalUOp>(a, o.params[0], o.params[1], o.params[2]);
      break;
    case MOp::RY:
      one ? q->emplaceBack<na::GlobalRYOp>(*z[0], o.params[0]) : q->emplaceBack<na::GlobalRYOp>(z, o.params[0]);
      break;
    case MOp::CZ:
      one ? q->emplaceBack<na::GlobalCZOp>(*z[0]) : q->emplaceBack<na::GlobalCZOp>(z);
      break;
    }
  }
  return q;
}
int sgn(double a, double b) { return a < b ? -1 : a > b ? 1 : 0; }
// 1: valid, 0: invalid, -1: depends on whether the order relative to loaded atoms which the operation leaves alone counts
struct Verdict {
  int v;
  std::size_t op;
};
Verdict judge(const Model& m) {
  std::vector<Location> cur;
  for (const auto& l : m.init) {
    if (!l) {
      return {0, 0};
    }
    cur.push_back(*l);
  }
  std::set<unsigned> loaded;
  bool open = false;
  for (std::size_t i = 0; i < m.ops.size(); ++i) {
    const auto& o = m.ops[i];
    const Verdict bad{open ? -1 : 0, i};
    if (o.k == MOp::RY || o.k == MOp::CZ) {
      continue;
    }
    if (std::set<unsigned>(o.atoms.begin(), o.atoms.end()).size() != o.atoms.size()) {
      return bad;
    }
    if (!shuttling(o)) {
      continue;
    }
    for (const auto a : o.atoms) {
      if ((loaded.count(a) != 0) == (o.k == MOp::Load)) {
        return bad;
      }
    }
    loaded.insert(o.atoms.begin(), o.atoms.end());
    if (o.hasTargets) {
      auto next = cur;
      for (std::size_t j = 0; j < o.atoms.size(); ++j) {
        next[o.atoms[j]] = o.targets[j];
      }
      auto kept = [&](unsigned a, unsigned b) {
        return sgn(cur[a].x, cur[b].x) == sgn(next[a].x, next[b].x) && sgn(cur[a].y, cur[b].y) == sgn(next[a].y, next[b].y);
      };
      const std::set<unsigned> in(o.atoms.begin(), o.atoms.end());
      for (const auto a : loaded) {
        for (const auto b : loaded) {
          if (a < b && (!kept(a, b) || (next[a].x == next[b].x && next[a].y == next[b].y))) {
            if (in.count(a) != 0 && in.count(b) != 0) {
              return bad;
            }
            open = open || in.count(a) != 0 || in.count(b) != 0;
          }
        }
      }
      // ending where another atom rests is left open, too
      for (const auto a : in) {
        for (unsigned b = 0; b < next.size(); ++b) {
          open = open || (a != b && in.count(b) == 0 && next[a].x == next[b].x && next[a].y == next[b].y);
        }
      }
      cur = next;
    }
    if (o.k == MOp::Store) {
      for (const auto a : o.atoms) {
        loaded.erase(a);
      }
    }
  }
  return {open ? -1 : 1, 0};
}
double coord(Rng& r) {
  switch (r.below(3)) {
  case 0:
    return static_cast<double>(r.range(0, 6)) - 2;
  case 1:
    return static_cast<double>(r.range(0, 40)) / 4 - 4;
  default:
    return r.uniform(-100, 100);
  }
}
// a move that keeps rows, columns and their order
std::vector<Location> orderly(Rng& r, const std::vector<Location>& from) {
  auto axis = [&](const std::function<double(const Location&)>& get) {
    std::set<double> vals;
    for (const auto& l : from) {
      vals.insert(get(l));
    }
    std::map<double, double> to;
    double at = coord(r);
    for (const auto v : vals) {
      to[v] = at;
      at += r.chance(0.5) ? 1. : r.uniform(0.01, 5);
    }
    return to;
  };
  const bool keepX = r.chance(0.25);
  const bool keepY = !keepX && r.chance(0.25);
  auto tx = axis([](const Location& l) { return l.x; });
  auto ty = axis([](const Location& l) { return l.y; });
  std::vector<Location> t;
  for (const auto& l : from) {
    t.push_back({keepX ? l.x : tx[l.x], keepY ? l.y : ty[l.y]});
  }
  return t;
}
Model generate(Rng& r) {
  Model m;
  const auto n = r.range(1, 6);
  for (std::size_t i = 0; i < n; ++i) {
    m.atoms.push_back(r.chance(0.1) && i > 0 ? m.atoms[r.below(i)] : cat("atom", i));
    if (r.chance(0.03) && i > 0) {
      m.init.push_back(m.init[r.below(i)]);
    } else if (r.chance(0.02)) {
      m.init.push_back(std::nullopt);
    } else {
      m.init.push_back(Location{coord(r), coord(r)});
    }
  }
  for (std::size_t i = 0; i < r.range(1, 3); ++i) {
    m.zones.push_back(cat("zone", i));
  }
  std::vector<Location> cur;
  for (const auto& l : m.init) {
    cur.push_back(l.value_or(Location{}));
  }
  std::set<unsigned> loaded;
  const auto k = r.range(0, 14);
  const double wild = r.chance(0.5) ? 0. : 0.15;
  auto subset = [&](const std::vector<unsigned>& from) {
    auto s = from;
    r.shuffle(s);
    s.resize(s.empty() ? 0 : r.chance(0.3) ? s.size() : r.range(1, s.size()));
    if (r.chance(wild * 0.3) && !s.empty()) {
      s.push_back(r.pick(s));
    }
    return s;
  };
  std::vector<unsigned> all;
  for (unsigned i = 0; i < n; ++i) {
    all.push_back(i);
  }
  for (std::size_t i = 0; i < k; ++i) {
    MOp o;
    const auto c = r.below(10);
    std::vector<unsigned> in;
    std::vector<unsigned> out;
    for (const auto a : all) {
      (loaded.count(a) != 0 ? in : out).push_back(a);
    }
    if (c < 3) {
      o.k = MOp::Load;
      o.atoms = subset(r.chance(wild) ? all : out);
    } else if (c < 5) {
      o.k = MOp::Store;
      o.atoms = subset(r.chance(wild) ? all : in);
    } else if (c < 8) {
      o.k = MOp::Move;
      o.atoms = r.chance(0.5) && !r.chance(wild) ? in : subset(r.chance(wild) ? all : in);
    } else if (c == 8) {
      o.k = r.chance(0.5) ? MOp::RZ : MOp::U;
      o.atoms = subset(all);
      for (int j = 0; j < (o.k == MOp::U ? 3 : 1); ++j) {
        o.params.push_back(randAngle(r));
      }
    } else {
      o.k = r.chance(0.5) ? MOp::RY : MOp::CZ;
      for (std::size_t j = 0; j < r.range(r.chance(0.1) ? 0 : 1, m.zones.size()); ++j) {
        o.atoms.push_back(static_cast<unsigned>(r.below(m.zones.size())));
      }
      if (o.k == MOp::RY) {
        o.params.push_back(randAngle(r));
      }
    }
    if (o.atoms.empty() && (o.k != MOp::RY && o.k != MOp::CZ) && r.chance(0.9)) {
      continue;
    }
    if (shuttling(o) && (o.k == MOp::Move || r.chance(0.4))) {
      o.hasTargets = true;
      std::vector<Location> from;
      for (const auto a : o.atoms) {
        from.push_back(cur[a]);
      }
      o.targets = orderly(r, from);
      if (r.chance(wild) && !o.targets.empty()) {
        auto& t = o.targets[r.below(o.targets.size())];
        switch (r.below(4)) {
        case 0:
          t.x = coord(r);
          break;
        case 1:
          t.y = coord(r);
          break;
        case 2:
          t = o.targets[r.below(o.targets.size())];
          break;
        default:
          std::swap(t.x, o.targets[r.below(o.targets.size())].x);
        }
      }
    }
    for (std::size_t j = 0; j < o.atoms.size() && shuttling(o); ++j) {
      if (o.hasTargets) {
        cur[o.atoms[j]] = o.targets[j];
      }
      if (o.k == MOp::Load) {
        loaded.insert(o.atoms[j]);
      } else if (o.k == MOp::Store) {
        loaded.erase(o.atoms[j]);
      }
    }
    m.ops.push_back(std::move(o));
  }
  return m;
}
void computation(Ctx& c) {
  auto& r = c.rng;
  const auto m = generate(r);
  std::string d;
  for (std::size_t i = 0; i < m.atoms.size(); ++i) {
    d += m.atoms[i] + " " + (m.init[i] ? cat(m.init[i]->x, ",", m.init[i]->y) : "nowhere") + "; ";
  }
  for (const auto& o : m.ops) {
    d += opStr(m, o) + "; ";
  }
  announce(c, d);
  std::vector<const na::Atom*> atoms;
  std::vector<const na::Zone*> zones;
  auto q = build(m, r, atoms, zones);
  if (r.chance(0.2)) {
    auto moved = std::make_unique<na::NAComputation>(std::move(*q));
    q = std::move(moved);
  }
  // contents
  c.check(q->size() == m.ops.size() && q->getAtomsSize() == m.atoms.size() && q->getAtoms().size() == m.atoms.size() &&
              q->getZones().size() == m.zones.size(),
          "size");
  std::size_t idx = 0;
  for (const auto& op : *q) {
    const auto& o = m.ops.at(idx);
    c.check(op.get() == &(*q)[idx], "iteration-order");
    c.check(op->is<na::ShuttlingOp>() == shuttling(o) && op->is<na::LoadOp>() == (o.k == MOp::Load) && op->is<na::StoreOp>() == (o.k == MOp::Store) &&
                op->is<na::MoveOp>() == (o.k == MOp::Move) && op->is<na::LocalOp>() == (o.k == MOp::RZ || o.k == MOp::U) &&
                op->is<na::GlobalOp>() == (o.k == MOp::RY || o.k == MOp::CZ) && op->is<na::LocalUOp>() == (o.k == MOp::U) &&
                op->is<na::GlobalRYOp>() == (o.k == MOp::RY),
            "operation-kind");
    c.check(op->toString() == opStr(m, o), "printed-operation", op->toString() + " instead of " + opStr(m, o));
    if (shuttling(o)) {
      const auto& s = op->as<na::ShuttlingOp>();
      bool same = s.getAtoms().size() == o.atoms.size() && s.hasTargetLocations() == o.hasTargets;
      for (std::size_t i = 0; same && i < o.atoms.size(); ++i) {
        same = s.getAtoms()[i] == atoms[o.atoms[i]] && (!o.hasTargets || s.getTargetLocations()[i] == o.targets[i]);
      }
      c.check(same, "shuttling-contents");
      if (!o.hasTargets) {
        bool thrown = false;
        try {
          const auto& x = s.getTargetLocations();
          thrown = x.size() > 1000000;
        } catch (const std::logic_error&) {
          thrown = true;
        }
        c.check(thrown, "missing-targets-not-refused");
      }
    }
    ++idx;
  }
  // positions
  for (std::size_t a = 0; a < atoms.size(); ++a) {
    if (!m.init[a]) {
      continue;
    }
    auto cur = *m.init[a];
    for (std::size_t i = 0; i < m.ops.size(); ++i) {
      const auto& o = m.ops[i];
      if (std::count(o.atoms.begin(), o.atoms.end(), a) > 1 && shuttling(o)) {
        break; // an atom with two targets: nothing is promised
      }
      for (std::size_t j = 0; j < o.atoms.size() && o.hasTargets; ++j) {
        if (o.atoms[j] == a) {
          cur = o.targets[j];
        }
      }
      const auto got = q->getLocationOfAtomAfterOperation(*atoms[a], (*q)[i]);
      c.check(got == cur, "tracked-position", cat("atom ", a, " after operation ", i, ": ", locStr(got), " instead of ", locStr(cur)));
    }
  }
  // validation
  const auto v = judge(m);
  const auto [ok, why] = q->validate();
  if (v.v >= 0) {
    c.check(ok == (v.v == 1), ok ? "invalid-schedule-accepted" : "valid-schedule-rejected", cat(v.op, ": ", why));
    c.check(ok == why.empty(), "validation-message", why);
    if (!ok && v.v == 0 && std::all_of(m.init.begin(), m.init.end(), [](const auto& l) { return l.has_value(); })) {
      c.check(why.find(cat("op number ", v.op + 2, " ")) != std::string::npos, "validation-names-wrong-operation", cat(v.op, ": ", why));
    }
    c.count(ok ? "valid" : "invalid");
  } else {
    c.count("undetermined");
  }
  // printing
  std::ostringstream os;
  os << *q;
  auto s = os.str();
  std::multiset<std::pair<Location, std::string>, bool (*)(const std::pair<Location, std::string>&, const std::pair<Location, std::string>&)> init(
      [](const auto& a, const auto& b) { return a.first.x != b.first.x ? a.first.x < b.first.x : a.first.y < b.first.y; });
  std::multiset<std::string> initLines;
  for (std::size_t i = 0; i < m.atoms.size(); ++i) {
    if (m.init[i]) {
      init.emplace(*m.init[i], m.atoms[i]);
      initLines.insert("atom " + locStr(*m.init[i]) + " " + m.atoms[i]);
    }
  }
  std::string ops;
  for (const auto& o : m.ops) {
    ops += opStr(m, o) + "\n";
  }
  const bool tail = s.size() >= ops.size() && s.substr(s.size() - ops.size()) == ops;
  c.check(tail, "printed-operations", s);
  if (tail) {
    std::istringstream is(s.substr(0, s.size() - ops.size()));
    std::multiset<std::string> lines;
    std::string l;
    auto it = init.begin();
    while (std::getline(is, l)) {
      lines.insert(l);
      if (it != init.end()) {
        c.check(l.find(locStr(it->first)) != std::string::npos, "initial-locations-not-in-order", l);
        ++it;
      }
    }
    c.check(lines == initLines, "printed-initial-locations", s);
  }
  if (r.chance(0.1)) {
    q->clear();
    c.check(q->size() == 0 && q->getAtomsSize() == m.atoms.size() && q->validate().first == std::all_of(m.init.begin(), m.init.end(), [](const auto& x) { return x.has_value(); }), "clear");
  }
}
void locations(Ctx& c) {
  auto& r = c.rng;
  auto draw = [&]() { return r.chance(0.3) ? Location{r.chance(0.5) ? 0. : -0., r.chance(0.5) ? 0. : -0.} : Location{coord(r), coord(r)}; };
  const auto a = draw();
  auto b = draw();
  if (r.chance(0.3)) {
    b.x = a.x;
  }
  if (r.chance(0.3)) {
    b.y = a.y;
  }
  announce(c, cat(a.x, ",", a.y, " ", b.x, ",", b.y));
  const int x = a.x != b.x ? sgn(a.x, b.x) : sgn(a.y, b.y);
  c.check((a == b) == (x == 0) && (a != b) == (x != 0), "location-equality");
  c.check((a < b) == (x < 0), "location-less");
  c.check((a > b) == (x > 0), "location-greater");
  c.check((a <= b) == (x <= 0), "location-less-or-equal");
  c.check((a >= b) == (x >= 0), "location-greater-or-equal");
  c.check(x != 0 || std::hash<Location>{}(a) == std::hash<Location>{}(b), "location-hash");
  const auto s = a + b;
  const auto d = a - b;
  c.check(s.x == a.x + b.x && s.y == a.y + b.y && d.x == a.x - b.x && d.y == a.y - b.y, "location-arithmetic");
  const double e = std::sqrt(d.x * d.x + d.y * d.y);
  c.check(std::abs(a.getEuclideanDistance(b) - e) < 1e-9 * (1 + e) && std::abs(Location::distance(b, a) - e) < 1e-9 * (1 + e) &&
              std::abs(d.length() - e) < 1e-9 * (1 + e),
          "location-distance");
  c.check(a.getManhattanDistanceX(b) == std::abs(a.x - b.x) && a.getManhattanDistanceY(b) == std::abs(a.y - b.y), "location-manhattan");
  std::ostringstream os;
  os << a;
  c.check(os.str() == locStr(a) && a.toString() == locStr(a), "location-printed", os.str());
  // zones
  na::Zone z("z");
  bool thrown = false;
  try {
    thrown = z.contains(a) && false;
  } catch (const std::runtime_error&) {
    thrown = true;
  }
  c.check(thrown, "zone-without-extent");
  const double x0 = std::min(a.x, b.x);
  const double x1 = std::max(a.x, b.x);
  const double y0 = std::min(a.y, b.y);
  const double y1 = std::max(a.y, b.y);
  const auto l = r.chance(0.3) ? Location{a.x, b.y} : r.chance(0.5) ? Location{r.uniform(x0 - 1, x1 + 1), r.uniform(y0 - 1, y1 + 1)} : draw();
  const bool in = x0 <= l.x && l.x <= x1 && y0 <= l.y && l.y <= y1;
  const na::Zone w("w", {x0, y0, x1, y1});
  z.setExtent({x0, y0, x1, y1});
  c.check(z.contains(l) == in && w.contains(l) == in, "zone-contains", cat(l.x, ",", l.y));
  // operations with the wrong number of targets
  const na::Atom at("a");
  const std::vector<const na::Atom*> as(r.range(0, 3), &at);
  const std::vector<Location> ts(r.range(0, 3), l);
  int refused = 0;
  for (int k = 0; k < 3; ++k) {
    try {
      k == 0   ? void(na::LoadOp(as, ts).toString())
      : k == 1 ? void(na::MoveOp(as, ts).toString())
               : void(na::StoreOp(as, ts).toString());
    } catch (const std::invalid_argument&) {
      ++refused;
    }
  }
  c.check(refused == (as.size() == ts.size() ? 0 : 3), "number-of-targets", cat(as.size(), " ", ts.size(), " ", refused));
}
} // namespace
int main(int argc, char** argv) {
  return runMain(argc, argv, "P17", {{"computation", 60000, 600000, computation}, {"locations", 30000, 300000, locations}});
}
