// P13: circuit editing and bookkeeping, against a shadow of the circuit's observable state.
#include "common/ddutil.hpp"
using namespace vf;
namespace {
struct Shadow {
  std::map<unsigned, unsigned> lay; // physical -> logical
  std::map<unsigned, unsigned> out;
  std::set<unsigned> anc; // logical
  std::set<unsigned> gar;
  std::size_t na = 0;
  std::size_t nc = 0;
  std::map<std::string, std::set<unsigned>> regs; // all quantum registers; names not monitored after splits
  std::map<std::string, std::pair<std::size_t, std::size_t>> cregs;
  bool namesKnown = true;
  std::vector<Op> ops;
  double gphase = 0;
  std::vector<unsigned> phys() const {
    std::vector<unsigned> p;
    for (const auto& [x, l] : lay) {
      p.push_back(x);
    }
    return p;
  }
  unsigned nextPhys() const { return lay.empty() ? 0 : lay.rbegin()->first + 1; }
};
bool acts(const Op& o, unsigned q) {
  if (o.k == Op::Compound || o.k == Op::If) {
    return std::any_of(o.body.begin(), o.body.end(), [q](const Op& b) { return acts(b, q); });
  }
  return std::find(o.t.begin(), o.t.end(), q) != o.t.end() ||
         std::any_of(o.c.begin(), o.c.end(), [q](const Ctl& c) { return c.q == q; });
}
void depth(const Op& o, std::map<unsigned, std::size_t>& d) {
  if (o.k == Op::Compound || o.k == Op::If) {
    for (const auto& b : o.body) {
      depth(b, d);
    }
    return;
  }
  if (o.k == Op::Barrier) {
    return;
  }
  if (o.k == Op::Measure || o.k == Op::Reset) {
    for (const auto t : o.t) {
      ++d[t];
    }
    return;
  }
  std::size_t m = 0;
  for (const auto t : o.t) {
    m = std::max(m, d[t]);
  }
  for (const auto& c : o.c) {
    m = std::max(m, d[c.q]);
  }
  for (const auto t : o.t) {
    d[t] = m + 1;
  }
  for (const auto& c : o.c) {
    d[c.q] = m + 1;
  }
}
// a measured qubit is used afterwards, or anything depends on classical values
bool dynamic(const Op& o, std::set<unsigned>& m, bool& unsure) {
  if (o.k == Op::Reset || o.k == Op::If) {
    return true;
  }
  if (o.k == Op::Compound) {
    for (const auto& b : o.body) {
      if (dynamic(b, m, unsure)) {
        return true;
      }
    }
    return false;
  }
  bool touched = false;
  for (const auto q : m) {
    touched = touched || acts(o, q);
  }
  if (o.k == Op::Measure) {
    unsure = unsure || touched;
    m.insert(o.t.begin(), o.t.end());
    return false;
  }
  if (o.k == Op::Barrier) {
    unsure = unsure || touched;
    return false;
  }
  return touched;
}
std::string perm(const std::map<unsigned, unsigned>& m) {
  std::string s;
  for (const auto& [a, b] : m) {
    s += cat(a, ":", b, " ");
  }
  return s;
}
std::map<unsigned, unsigned> toMap(const qc::Permutation& p) {
  std::map<unsigned, unsigned> m;
  for (const auto& [a, b] : p) {
    m[a] = b;
  }
  return m;
}
void invariants(Ctx& c, qc::QuantumComputation& q, const Shadow& s, const std::string& what) {
  const auto N = s.lay.size();
  const auto& cq = q;
  c.check(q.getNqubits() == N && q.getNancillae() == s.na && q.getNqubitsWithoutAncillae() == N - s.na, "qubit-counts",
          cat(what, ": ", q.getNqubits(), " qubits, ", q.getNancillae(), " ancillae, expected ", N, " and ", s.na));
  c.check(q.getNcbits() == s.nc, "bit-count", what);
  c.check(toMap(q.initialLayout) == s.lay, "initial-layout", what + ": " + perm(toMap(q.initialLayout)) + "expected " + perm(s.lay));
  c.check(toMap(q.outputPermutation) == s.out, "output-permutation",
          what + ": " + perm(toMap(q.outputPermutation)) + "expected " + perm(s.out));
  std::size_t na = 0;
  std::size_t ng = 0;
  for (unsigned l = 0; l < N; ++l) {
    const bool a = l < q.getAncillary().size() && q.getAncillary()[l];
    const bool g = l < q.getGarbage().size() && q.getGarbage()[l];
    na += a ? 1 : 0;
    ng += g ? 1 : 0;
    c.check(a == (s.anc.count(l) != 0) && a == q.logicalQubitIsAncillary(l), "ancillary", cat(what, " logical ", l));
    c.check(g == (s.gar.count(l) != 0) && g == q.logicalQubitIsGarbage(l), "garbage", cat(what, " logical ", l));
    const auto [has, p] = cq.containsLogicalQubit(l);
    c.check(has && p.has_value() && s.lay.count(*p) != 0 && s.lay.at(*p) == l && q.getPhysicalQubitIndex(l) == *p,
            "contains-logical-qubit", cat(what, " ", l));
  }
  c.check(na == s.na, "ancillary-count", what);
  c.check(q.getNgarbageQubits() == ng && q.getNmeasuredQubits() == N - ng, "garbage-count", what);
  c.check(!cq.containsLogicalQubit(static_cast<qc::Qubit>(N)).first, "contains-logical-qubit", "absent");
  if (N > 0) {
    c.check(q.getHighestPhysicalQubitIndex() == s.lay.rbegin()->first, "highest-physical");
    unsigned hl = 0;
    for (const auto& [p, l] : s.lay) {
      hl = std::max(hl, l);
    }
    c.check(q.getHighestLogicalQubitIndex() == hl, "highest-logical");
  }
  // registers partition the qubits and the bits
  std::map<unsigned, std::string> owner;
  std::map<std::string, std::set<unsigned>> regs;
  bool part = true;
  auto collect = [&](const auto& m) {
    for (const auto& [name, r] : m) {
      part = part && r.getName() == name && r.getSize() > 0;
      for (std::size_t i = 0; i < r.getSize(); ++i) {
        const auto p = static_cast<unsigned>(r.getStartIndex() + i);
        part = part && owner.emplace(p, name).second && r.contains(p) && r.getLocalIndex(p) == i;
        regs[name].insert(p);
      }
      part = part && r.getEndIndex() == r.getStartIndex() + r.getSize() - 1;
    }
  };
  collect(q.getQuantumRegisters());
  collect(q.getAncillaRegisters());
  std::string od;
  for (const auto& [p, n] : owner) {
    od += cat(p, ":", n, " ");
  }
  part = part && owner.size() == N;
  for (const auto& [p, l] : s.lay) {
    part = part && owner.count(p) != 0;
  }
  if (c.check(part, "quantum-registers", what + ": " + od + " for " + perm(s.lay))) {
    for (const auto& [p, l] : s.lay) {
      auto& r = q.getQubitRegister(p);
      c.check(r.contains(p) && r.getName() == owner[p], "register-of-qubit", cat(what, " ", p));
    }
    if (s.namesKnown) {
      c.check(regs == s.regs, "quantum-registers", what + " contents " + od);
    }
  }
  std::map<std::string, std::pair<std::size_t, std::size_t>> cr;
  for (const auto& [n, r] : q.getClassicalRegisters()) {
    cr[n] = {r.getStartIndex(), r.getSize()};
  }
  c.check(cr == s.cregs, "classical-registers", what);
  // operations
  bool same = q.getNops() == s.ops.size() && q.size() == s.ops.size() && q.empty() == s.ops.empty();
  if (c.check(same, "operation-count", cat(what, " ", q.getNops(), " expected ", s.ops.size()))) {
    for (std::size_t i = 0; i < s.ops.size(); ++i) {
      c.check(str(lift(*q.at(i))) == str(s.ops[i]), "operations", cat(what, " at ", i, ": ", str(lift(*q.at(i))), " expected ", str(s.ops[i])));
    }
  }
  c.check(std::abs(std::polar(1., q.getGlobalPhase()) - std::polar(1., s.gphase)) < 1e-9, "global-phase", what);
  std::size_t single = 0;
  std::size_t individual = 0;
  std::map<unsigned, std::size_t> d;
  bool barrier = false;
  for (const auto& o : s.ops) {
    depth(o, d);
    const auto one = [&](const Op& x) {
      barrier = barrier || x.k == Op::Barrier;
      return x.k == Op::Gate && x.c.empty() && x.t.size() == 1;
    };
    if (o.k == Op::Compound) {
      individual += o.body.size();
      for (const auto& b : o.body) {
        single += one(b) ? 1 : 0;
      }
    } else {
      ++individual;
      single += one(o) ? 1 : 0;
    }
  }
  c.check(q.getNindividualOps() == individual, "individual-operations", what);
  if (!barrier) {
    c.check(q.getNsingleQubitOps() == single, "single-qubit-operations", cat(what, " ", q.getNsingleQubitOps(), " expected ", single));
  }
  std::size_t dep = 0;
  for (const auto& [p, x] : d) {
    dep = std::max(dep, x);
  }
  c.check(q.getDepth() == dep, "depth", cat(what, " ", q.getDepth(), " expected ", dep));
  for (const auto& [p, l] : s.lay) {
    const auto pp = p;
    c.check(q.isIdleQubit(p) == std::none_of(s.ops.begin(), s.ops.end(), [pp](const Op& o) { return acts(o, pp); }), "idle", cat(what, " ", p));
  }
  for (std::size_t i = 0; i < s.ops.size(); ++i) {
    bool last = true;
    for (std::size_t j = i + 1; j < s.ops.size(); ++j) {
      for (const auto& [p, l] : s.lay) {
        last = last && !(acts(s.ops[i], p) && acts(s.ops[j], p));
      }
    }
    c.check(cq.isLastOperationOnQubit(cq.begin() + static_cast<long>(i), cq.end()) == last, "last-operation", cat(what, " at ", i));
  }
  std::set<unsigned> m;
  bool unsure = false;
  bool dyn = false;
  for (const auto& o : s.ops) {
    dyn = dyn || dynamic(o, m, unsure);
  }
  if (dyn || !unsure) {
    c.check(q.isDynamic() == dyn, "dynamic", what);
  }
}
Op genFor(Rng& r, const Shadow& s) {
  GenCfg g;
  const auto p = s.phys();
  g.n = static_cast<unsigned>(p.size());
  g.nc = s.nc;
  for (const auto& [n, x] : s.cregs) {
    g.cregs.push_back(x);
  }
  g.compound = 0.08;
  g.gphase = 0;
  g.barrier = 0.05;
  g.measure = 0.12;
  g.reset = 0.03;
  g.cond = 0.12;
  auto o = genOp(r, g);
  remap(o, [&](unsigned x) { return p[x]; });
  return o;
}
Op normal(Op o) { // stored form of an operation
  if (o.k == Op::If && o.condIsBit && o.cmp == qc::Neq) {
    o.cmp = qc::Eq;
    o.expected = 1 - o.expected;
  }
  if (o.k == Op::If && o.cmp != qc::Eq && o.condIsBit) {
    o.cmp = qc::Eq;
  }
  return o;
}
std::vector<Ensemble> behaviour(const std::vector<Op>& ops, unsigned n, std::size_t nc, const std::vector<Vec>& in) {
  std::vector<Ensemble> e;
  for (const auto& v : in) {
    Circ k;
    k.n = n;
    k.nc = nc;
    k.ops = ops;
    e.push_back(ensemble(runBranches(k, v)));
  }
  return e;
}
void history(Ctx& c) {
  auto& r = c.rng;
  Shadow s;
  qc::QuantumComputation q;
  std::string log;
  if (r.chance(0.7)) {
    const auto n = static_cast<unsigned>(r.range(1, 4));
    const auto nc = r.below(4);
    q = qc::QuantumComputation(n, nc, 7);
    for (unsigned i = 0; i < n; ++i) {
      s.lay[i] = s.out[i] = i;
      s.regs["q"].insert(i);
    }
    s.nc = nc;
    if (nc > 0) {
      s.cregs["c"] = {0, nc};
    }
    log = cat("circuit(", n, ",", nc, ") ");
  }
  announce(c, log);
  invariants(c, q, s, "new circuit");
  const auto steps = r.range(5, 22);
  std::vector<std::tuple<qc::QuantumComputation, Shadow, std::string>> copies;
  const auto v0 = c.violations;
  for (std::size_t st = 0; st < steps && c.violations == v0; ++st) {
    std::string what;
    auto note = [&](const std::string& w) {
      what = w;
      log += w + "; ";
      announce(c, log);
    };
    const auto N = static_cast<unsigned>(s.lay.size());
    switch (r.below(21)) {
    case 0: { // quantum register
      const auto k = r.below(4);
      const auto name = r.pick(std::vector<std::string>{"q", "r", "s", "anc", "work"});
      note(cat("addQubitRegister(", k, ",", name, ")"));
      const bool ok = k > 0 && s.regs.count(name) == 0 && s.na == 0 && s.namesKnown && N + k <= 6;
      if (!ok && (N + k > 6 || (!s.namesKnown))) {
        break;
      }
      const auto before = q;
      try {
        const auto& reg = q.addQubitRegister(k, name);
        c.check(ok, "accepted", what);
        c.check(reg.getName() == name && reg.getSize() == k, "returned-register", what);
        const auto base = s.nextPhys();
        for (unsigned i = 0; i < k; ++i) {
          s.lay[base + i] = s.out[base + i] = N + i;
          s.regs[name].insert(base + i);
        }
      } catch (const std::exception& e) {
        c.check(!ok, "rejected", what + e.what());
        c.check(q == before, "rejected-edit-has-effect", what);
      }
      break;
    }
    case 1: { // ancillary register
      const auto k = r.below(3);
      const auto name = r.pick(std::vector<std::string>{"q", "anc", "work", "anc2"});
      note(cat("addAncillaryRegister(", k, ",", name, ")"));
      if (!s.namesKnown || N + k > 6) {
        break;
      }
      const bool ok = k > 0 && s.regs.count(name) == 0;
      const auto before = q;
      try {
        q.addAncillaryRegister(k, name);
        c.check(ok, "accepted", what);
        const auto base = s.nextPhys();
        for (unsigned i = 0; i < k; ++i) {
          s.lay[base + i] = s.out[base + i] = N + i;
          s.anc.insert(N + i);
          s.regs[name].insert(base + i);
          ++s.na;
        }
      } catch (const std::exception& e) {
        c.check(!ok, "rejected", what + e.what());
        c.check(q == before, "rejected-edit-has-effect", what);
      }
      break;
    }
    case 2: { // classical register
      const auto k = r.below(3);
      const auto name = r.pick(std::vector<std::string>{"c", "d", "meas"});
      note(cat("addClassicalRegister(", k, ",", name, ")"));
      const bool ok = k > 0 && s.cregs.count(name) == 0 && s.nc + k <= 5;
      if (s.nc + k > 5) {
        break;
      }
      const auto before = q;
      try {
        q.addClassicalRegister(k, name);
        c.check(ok, "accepted", what);
        s.cregs[name] = {s.nc, k};
        s.nc += k;
      } catch (const std::exception& e) {
        c.check(!ok, "rejected", what + e.what());
        c.check(q == before, "rejected-edit-has-effect", what);
      }
      break;
    }
    case 3:
    case 4:
    case 5:
    case 6:
    case 7: { // operations
      if (N == 0) {
        break;
      }
      const auto k = r.range(1, 3);
      for (std::size_t i = 0; i < k; ++i) {
        const auto o = genFor(r, s);
        note(str(o));
        append(q, o, r);
        s.ops.push_back(lift(*toOperation(o)));
      }
      break;
    }
    case 8: { // erase, insert, pop
      if (s.ops.empty()) {
        break;
      }
      const auto i = r.below(s.ops.size());
      switch (r.below(3)) {
      case 0:
        note(cat("erase ", i));
        q.erase(q.begin() + static_cast<long>(i));
        s.ops.erase(s.ops.begin() + static_cast<long>(i));
        break;
      case 1: {
        const auto o = genFor(r, s);
        note(cat("insert ", str(o), " at ", i));
        q.insert(q.cbegin() + static_cast<long>(i), toOperation(o));
        s.ops.insert(s.ops.begin() + static_cast<long>(i), lift(*toOperation(o)));
        break;
      }
      default:
        note("pop_back");
        q.pop_back();
        s.ops.pop_back();
      }
      break;
    }
    case 9: { // permuted layouts
      if (N == 0) {
        break;
      }
      note("layouts");
      const auto a = r.perm(N);
      std::size_t i = 0;
      for (auto& [p, l] : s.lay) {
        l = static_cast<unsigned>(a[i++]);
        q.initialLayout[p] = l;
      }
      const auto b = r.perm(N);
      i = 0;
      s.out.clear();
      q.outputPermutation.clear();
      for (const auto& [p, l] : s.lay) {
        const auto o = static_cast<unsigned>(b[i++]);
        if (s.gar.count(o) == 0) {
          s.out[p] = o;
          q.outputPermutation[p] = o;
        }
      }
      break;
    }
    case 10: { // garbage and ancillary marks
      if (N == 0) {
        break;
      }
      auto l = static_cast<unsigned>(r.below(N));
      if (r.chance(0.5)) {
        note(cat("garbage ", l));
        auto h = l;
        if (r.chance(0.3)) {
          h = static_cast<unsigned>(r.range(l, N - 1));
          q.setLogicalQubitsGarbage(l, h);
        } else {
          q.setLogicalQubitGarbage(l);
        }
        for (; l <= h; ++l) {
          s.gar.insert(l);
          for (auto it = s.out.begin(); it != s.out.end();) {
            it = it->second == l ? s.out.erase(it) : std::next(it);
          }
        }
      } else {
        note(cat("ancillary ", l));
        auto h = l;
        if (r.chance(0.3)) {
          h = static_cast<unsigned>(r.range(l, N - 1));
          q.setLogicalQubitsAncillary(l, h);
        } else {
          q.setLogicalQubitAncillary(l);
        }
        for (; l <= h; ++l) {
          s.na += s.anc.insert(l).second ? 1 : 0;
        }
      }
      break;
    }
    case 11: { // strip idle qubits
      const bool force = r.chance(0.4);
      std::set<unsigned> idle;
      for (const auto& [p, l] : s.lay) {
        const auto pp = p;
        if (std::none_of(s.ops.begin(), s.ops.end(), [pp](const Op& o) { return acts(o, pp); })) {
          idle.insert(p);
        }
      }
      std::set<unsigned> gone; // logical
      bool defined = true;
      std::set<unsigned> outs;
      for (const auto& [p, l] : s.out) {
        outs.insert(l);
      }
      for (const auto p : idle) {
        const auto l = s.lay.at(p);
        const auto it = s.out.find(p);
        if (!force) {
          if (it == s.out.end() && outs.count(l) == 0) {
            gone.insert(l);
          }
        } else {
          // an idle qubit whose state leaves elsewhere under another name is not dispensable
          if ((it != s.out.end() && it->second != l) || (it == s.out.end() && outs.count(l) != 0)) {
            defined = false;
          }
          gone.insert(l);
        }
      }
      if (!defined || gone.size() == N) {
        break;
      }
      note(force ? "stripIdleQubits(force)" : "stripIdleQubits");
      q.stripIdleQubits(force);
      auto rank = [&](unsigned l) { return l - static_cast<unsigned>(std::distance(gone.begin(), gone.lower_bound(l))); };
      Shadow t = s;
      t.lay.clear();
      t.out.clear();
      t.anc.clear();
      t.gar.clear();
      for (const auto& [p, l] : s.lay) {
        if (gone.count(l) == 0) {
          t.lay[p] = rank(l);
          if (s.out.count(p) != 0) {
            t.out[p] = rank(s.out.at(p));
          }
          if (s.anc.count(l) != 0) {
            t.anc.insert(rank(l));
          }
          if (s.gar.count(l) != 0) {
            t.gar.insert(rank(l));
          }
        }
      }
      t.na = t.anc.size();
      t.namesKnown = s.namesKnown && gone.empty();
      s = t;
      break;
    }
    case 12: { // remove a qubit and insert it again
      if (N < 2) {
        break;
      }
      const auto l = static_cast<unsigned>(r.below(N));
      note(cat("removeQubit and addQubit ", l));
      unsigned p = 0;
      for (const auto& [x, y] : s.lay) {
        p = y == l ? x : p;
      }
      const bool anc = q.physicalQubitIsAncillary(p);
      const auto [rp, ro] = q.removeQubit(l);
      c.check(rp == p && ro.has_value() == (s.out.count(p) != 0) && (!ro.has_value() || *ro == s.out.at(p)), "removed-qubit", what);
      c.check(q.getNqubits() == N - 1 && q.initialLayout.count(p) == 0 && q.outputPermutation.count(p) == 0, "removed-qubit-remains", what);
      s.namesKnown = false;
      if (anc && l == N - 1) {
        q.addAncillaryQubit(rp, ro);
        s.gar.erase(l);
        s.na += s.anc.insert(l).second ? 1 : 0;
        if (!ro.has_value()) {
          s.gar.insert(l);
        }
      } else if (l <= q.getNqubitsWithoutAncillae()) {
        q.addQubit(l, rp, ro);
        s.na -= s.anc.erase(l);
        s.gar.erase(l);
      } else { // cannot be inserted at this place: give up on this circuit
        bool threw = false;
        const auto before = q;
        try {
          q.addQubit(l, rp, ro);
        } catch (const std::exception&) {
          threw = true;
        }
        c.check(threw && q == before, "misplaced-qubit", what);
        return;
      }
      break;
    }
    case 13: { // an additional ancilla on a free physical qubit
      if (N == 0 || N >= 6) {
        break;
      }
      unsigned p = 0;
      while (s.lay.count(p) != 0) {
        ++p;
      }
      if (r.chance(0.5)) {
        p = s.nextPhys();
      }
      const bool o = r.chance(0.5);
      note(cat("addAncillaryQubit ", p, o ? " output" : ""));
      q.addAncillaryQubit(p, o ? std::optional<qc::Qubit>(N) : std::nullopt);
      s.lay[p] = N;
      s.anc.insert(N);
      ++s.na;
      if (o) {
        s.out[p] = N;
      } else {
        s.gar.insert(N);
      }
      s.namesKnown = false;
      break;
    }
    case 14: { // reorder
      note("reorderOperations");
      const auto n = s.nextPhys();
      q.reorderOperations();
      std::vector<Op> now;
      std::multiset<std::string> a;
      std::multiset<std::string> b;
      for (const auto& x : q) {
        now.push_back(lift(*x));
        a.insert(str(now.back()));
      }
      for (const auto& x : s.ops) {
        b.insert(str(x));
      }
      c.check(a == b, "reordered-operations", what);
      if (n > 0 && n <= 6 && s.nc <= 4) {
        const std::vector<Vec> in{randState(r, n)};
        const auto x = behaviour(now, n, s.nc, in);
        const auto y = behaviour(s.ops, n, s.nc, in);
        c.check(dist(x[0], y[0]) < 1e-8, "reordered-computation", what);
        c.count("reorderings compared");
      }
      s.ops = now;
      break;
    }
    case 15: { // unify registers
      if (N == 0 || s.nextPhys() != N) {
        break;
      }
      note("unifyQuantumRegisters");
      const auto& reg = q.unifyQuantumRegisters("u");
      c.check(reg.getSize() == N && reg.getStartIndex() == 0 && reg.getName() == "u", "unified-register");
      s.anc.clear();
      s.na = 0;
      s.regs.clear();
      for (unsigned i = 0; i < N; ++i) {
        s.regs["u"].insert(i);
      }
      s.namesKnown = true;
      break;
    }
    case 16: { // global phase, clearing
      if (r.chance(0.7)) {
        const auto a = randAngle(r);
        note(cat("gphase ", a));
        q.gphase(a);
        s.gphase += a;
      } else if (r.chance(0.5)) {
        note("clear");
        q.clear();
        s.ops.clear();
      } else {
        note("reset");
        q.reset();
        s = Shadow{};
        c.check(q == qc::QuantumComputation(0, 0, 7) || q == qc::QuantumComputation(), "reset-leaves-state", what);
      }
      break;
    }
    case 17: { // a copy, looked at again later
      note("copy");
      if (r.chance(0.5)) {
        copies.emplace_back(q, s, log);
      } else {
        qc::QuantumComputation k;
        k = q;
        copies.emplace_back(std::move(k), s, log);
      }
      c.check(std::get<0>(copies.back()) == q, "copy-unequal", what);
      break;
    }
    case 18: { // measurements
      if (N == 0) {
        break;
      }
      const auto before = q;
      if (r.chance(0.5)) {
        const bool add = r.chance(0.5);
        note(cat("measureAll(", add, ")"));
        const bool ok = add ? s.cregs.count("meas") == 0 : s.nc >= N;
        if (add && s.nc + N > 6) {
          break;
        }
        try {
          q.measureAll(add);
          c.check(ok, "accepted", what);
          std::size_t start = 0;
          if (add) {
            start = s.nc;
            s.cregs["meas"] = {s.nc, N};
            s.nc += N;
          }
          // each qubit into a bit of its own, in the order of the qubits
          const auto p = s.phys();
          Op b;
          b.k = Op::Barrier;
          b.type = qc::Barrier;
          b.t = p;
          s.ops.push_back(b);
          for (std::size_t i = N; i-- > 0;) {
            Op m;
            m.k = Op::Measure;
            m.type = qc::Measure;
            m.t = {p[i]};
            m.bits = {start + i};
            s.ops.push_back(m);
          }
        } catch (const std::exception& e) {
          c.check(!ok, "rejected", what + e.what());
          c.check(q == before, "rejected-edit-has-effect", what);
        }
      } else {
        if (s.out.empty() || s.nc + N > 6) {
          break;
        }
        note("appendMeasurementsAccordingToOutputPermutation");
        unsigned top = 0;
        for (const auto& [p, o] : s.out) {
          top = std::max(top, o);
        }
        const bool ok = s.nc > top || s.cregs.count("m") == 0;
        try {
          q.appendMeasurementsAccordingToOutputPermutation("m");
          c.check(ok, "accepted", what);
          if (s.nc <= top) {
            s.cregs["m"] = {s.nc, top + 1 - s.nc};
            s.nc = top + 1;
          }
          Op b;
          b.k = Op::Barrier;
          b.type = qc::Barrier;
          b.t = s.phys();
          s.ops.push_back(b);
          for (const auto& [p, o] : s.out) {
            Op m;
            m.k = Op::Measure;
            m.type = qc::Measure;
            m.t = {p};
            m.bits = {o};
            s.ops.push_back(m);
          }
        } catch (const std::exception& e) {
          c.check(!ok, "rejected", what + e.what());
          c.check(q == before, "rejected-edit-has-effect", what);
        }
      }
      break;
    }
    case 19: { // reverse
      note("reverse");
      q.reverse();
      std::reverse(s.ops.begin(), s.ops.end());
      break;
    }
    default: { // misuse
      const auto before = q;
      const auto bad = static_cast<qc::Qubit>(s.nextPhys() + r.below(3));
      const auto good = s.lay.empty() ? 0U : r.pick(s.phys());
      const auto badBit = s.nc + r.below(3);
      const auto k = r.below(19);
      note(cat("misuse ", k));
      bool threw = false;
      try {
        switch (k) {
        case 0: q.h(bad); break;
        case 1: q.cx(bad, good); break;
        case 2: q.mcp(0.3, {good, bad}, bad + 1); break;
        case 3: q.swap(good, bad); break;
        case 4: q.rzz(0.2, bad, good); break;
        case 5: q.measure(bad, 0); break;
        case 6: q.measure(good, badBit); break;
        case 7: q.measure({good, bad}, {0, 0}); break;
        case 8: q.reset(bad); break;
        case 9: q.barrier(bad); break;
        case 10: q.barrier({good, bad}); break;
        case 11: q.classicControlled(qc::X, good, static_cast<qc::Bit>(badBit)); break;
        case 12: q.classicControlled(qc::X, bad, static_cast<qc::Bit>(0)); break;
        case 13: q.classicControlled(qc::X, good, qc::ClassicalRegister(badBit, 1, "zz")); break;
        case 14:
          if (s.lay.empty()) {
            q.h(0);
          } else {
            q.addAncillaryQubit(good, std::nullopt);
          }
          break;
        case 15: q.addQubit(static_cast<qc::Qubit>(N + 3), bad, std::nullopt); break;
        case 16: q.removeQubit(static_cast<qc::Qubit>(N + 1)); break;
        case 17: q.setLogicalQubitGarbage(static_cast<qc::Qubit>(N + 1 + r.below(200))); break;
        default: q.setLogicalQubitAncillary(static_cast<qc::Qubit>(N + 1 + r.below(200))); break;
        }
      } catch (const std::exception&) {
        threw = true;
      }
      c.count("misuse");
      c.check(threw, "misuse-accepted", what);
      c.check(q == before, "rejected-edit-has-effect", what);
    }
    }
    if (!what.empty()) {
      c.count("edits");
      invariants(c, q, s, what);
    }
    if (r.chance(0.05)) { // moving keeps everything
      qc::QuantumComputation k(std::move(q));
      q = std::move(k);
      invariants(c, q, s, "move");
    }
  }
  for (auto& [k, t, w] : copies) {
    c.count("copies");
    invariants(c, k, t, "copy taken after: " + w);
  }
  if (r.chance(0.3)) { // printing does not fail and does not change anything
    std::ostringstream o;
    o << q;
    q.printStatistics(o);
    c.check(!o.str().empty(), "print");
    invariants(c, q, s, "print");
  }
}
// output permutation and garbage derived from measurements
void ioMapping(Ctx& c) {
  auto& r = c.rng;
  const auto n = static_cast<unsigned>(r.range(1, 5));
  const auto nanc = static_cast<unsigned>(r.below(2));
  qc::QuantumComputation q(n, n + nanc);
  if (nanc > 0) {
    q.addAncillaryRegister(nanc);
  }
  const auto N = n + nanc;
  const bool fresh = r.chance(0.4);
  const auto lay = r.perm(N);
  const auto prev = r.perm(N);
  const bool relabel = r.chance(0.4);
  if (relabel) {
    for (unsigned i = 0; i < N; ++i) {
      q.initialLayout[i] = static_cast<qc::Qubit>(lay[i]);
      q.outputPermutation[i] = static_cast<qc::Qubit>(prev[i]);
    }
  }
  if (fresh) {
    q.outputPermutation.clear();
  }
  GenCfg g;
  g.n = N;
  g.nops = r.below(6);
  const auto ci = genCirc(r, g);
  for (const auto& o : ci.ops) {
    append(q, o, r);
  }
  // every qubit measured at most once "first", into different bits; some again
  const auto bits = r.perm(N);
  const auto qs = r.perm(N);
  const auto k = r.below(N + 1);
  std::map<unsigned, unsigned> first;
  std::string d = str(ci) + (fresh ? " no output permutation" : "") + (relabel ? " relabelled" : "");
  std::size_t i = 0;
  std::vector<std::pair<qc::Qubit, qc::Bit>> done;
  while (i < k) {
    const auto m = std::min<std::size_t>(k - i, r.range(1, 3));
    std::vector<std::pair<qc::Qubit, qc::Bit>> ms;
    for (std::size_t j = 0; j < m; ++j) {
      ms.emplace_back(static_cast<qc::Qubit>(qs[i + j]), bits[i + j]);
      first[static_cast<unsigned>(qs[i + j])] = static_cast<unsigned>(bits[i + j]);
    }
    if (!done.empty() && r.chance(0.4)) { // a repeated measurement among others
      ms.insert(ms.begin() + static_cast<long>(r.below(ms.size() + 1)), r.pick(done));
    }
    qc::Targets t;
    std::vector<qc::Bit> b;
    for (const auto& [x, y] : ms) {
      t.push_back(x);
      b.push_back(y);
      d += cat(" ", x, "->", y);
    }
    d += ";";
    q.measure(t, b);
    done.insert(done.end(), ms.begin(), ms.end());
    i += m;
  }
  announce(c, d);
  q.initializeIOMapping();
  std::map<unsigned, unsigned> want;
  if (k > 0) {
    want = first;
  } else if (!fresh) {
    for (unsigned x = 0; x < N; ++x) {
      want[x] = relabel ? static_cast<unsigned>(prev[x]) : x;
    }
  }
  // an idle ancilla is garbage and leaves the outputs
  std::set<unsigned> gar;
  std::set<unsigned> outs;
  for (const auto& [p, o] : want) {
    outs.insert(o);
  }
  for (unsigned x = 0; x < N; ++x) {
    const auto l = relabel ? static_cast<unsigned>(lay[x]) : x;
    if (outs.count(l) == 0) {
      gar.insert(l);
    }
  }
  for (unsigned x = 0; x < N; ++x) {
    const auto l = relabel ? static_cast<unsigned>(lay[x]) : x;
    if (q.logicalQubitIsAncillary(l) && q.isIdleQubit(x)) {
      gar.insert(l);
      for (auto it = want.begin(); it != want.end();) {
        it = it->second == l ? want.erase(it) : std::next(it);
      }
    }
  }
  c.check(toMap(q.outputPermutation) == want, "output-permutation-from-measurements", perm(toMap(q.outputPermutation)) + " expected " + perm(want));
  for (unsigned l = 0; l < N; ++l) {
    c.check(q.logicalQubitIsGarbage(l) == (gar.count(l) != 0), "garbage-from-measurements", cat(l));
  }
  const auto once = q;
  q.initializeIOMapping();
  c.check(toMap(q.outputPermutation) == toMap(once.outputPermutation), "repeated-io-mapping");
}
// circuits to compound operations and back
void compound(Ctx& c) {
  auto& r = c.rng;
  GenCfg g;
  g.n = static_cast<unsigned>(r.range(1, 4));
  g.nc = r.range(1, 4);
  g.cregs = {{0, g.nc}};
  if (g.nc > 1) {
    g.cregs.push_back({1, g.nc - 1});
  }
  g.nops = r.range(1, 8);
  g.measure = 0.15;
  g.cond = 0.2;
  g.reset = 0.05;
  auto ci = genCirc(r, g);
  if (r.chance(0.3)) { // nested non-unitary operations
    Op k;
    k.k = Op::Compound;
    k.type = qc::Compound;
    for (int i = 0; i < 3; ++i) {
      k.body.push_back(genOp(r, g, true));
    }
    ci.ops.push_back(k);
  }
  announce(c, str(ci));
  auto q = vf::build(ci, r);
  std::vector<std::string> want;
  for (const auto& o : q) {
    want.push_back(str(lift(*o)));
  }
  auto copy = q;
  const auto comp = copy.asCompoundOperation();
  c.check(comp->size() == want.size(), "compound-size");
  const auto back = qc::QuantumComputation::fromCompoundOperation(*comp);
  std::vector<std::string> got;
  std::size_t maxq = 0;
  std::size_t bits = 0;
  auto scan = [&](const Op& o, auto&& self) -> void {
    for (const auto t : o.t) {
      maxq = std::max<std::size_t>(maxq, t);
    }
    for (const auto& x : o.c) {
      maxq = std::max<std::size_t>(maxq, x.q);
    }
    for (const auto b : o.bits) {
      bits = std::max<std::size_t>(bits, b + 1);
    }
    for (const auto b : o.condBits) {
      bits = std::max<std::size_t>(bits, b + 1);
    }
    for (const auto& b : o.body) {
      self(b, self);
    }
  };
  for (const auto& o : back) {
    got.push_back(str(lift(*o)));
    scan(lift(*o), scan);
  }
  c.check(got == want, "circuit-from-compound");
  c.check(back.getNqubits() > maxq && back.getNcbits() >= bits, "circuit-from-compound-size",
          cat(back.getNqubits(), " qubits, ", back.getNcbits(), " bits"));
  c.check(back.initialLayout.size() == back.getNqubits() && back.outputPermutation.size() == back.getNqubits(), "circuit-from-compound-layout");
  auto again = vf::build(ci, r);
  const auto n = again.getNops();
  std::vector<std::string> ops;
  for (const auto& o : again) {
    ops.push_back(str(lift(*o)));
  }
  const auto op = again.asOperation();
  if (n == 0) {
    c.check(op == nullptr, "circuit-as-operation", "empty");
    return;
  }
  c.check(again.empty() && op != nullptr && (n == 1 ? str(lift(*op)) == ops[0] : lift(*op).body.size() == n), "circuit-as-operation");
}
} // namespace
int main(int argc, char** argv) {
  return runMain(argc, argv, "P13",
                 {{"history", 12000, 150000, history}, {"io-mapping", 10000, 100000, ioMapping}, {"compound", 6000, 60000, compound}});
}
