// P19: the passes of the MLIR dialect keep the meaning of programs and produce valid programs.
#include "common/gen.hpp"
#include "common/harness.hpp"

#include "mlir/Dialect/MQTOpt/IR/MQTOptDialect.h"
#include "mlir/Dialect/MQTOpt/Transforms/Passes.h"

#include <llvm/ADT/DenseMap.h>
#include <llvm/Support/raw_ostream.h>
#include <mlir/Dialect/Arith/IR/Arith.h>
#include <mlir/Dialect/ControlFlow/IR/ControlFlowOps.h>
#include <mlir/Dialect/Func/IR/FuncOps.h>
#include <mlir/IR/BuiltinOps.h>
#include <mlir/IR/Diagnostics.h>
#include <mlir/IR/MLIRContext.h>
#include <mlir/IR/Verifier.h>
#include <mlir/Parser/Parser.h>
#include <mlir/Pass/PassManager.h>
#include <mlir/Transforms/Passes.h>

namespace {
using namespace vf;
namespace mo = mqt::ir::opt;

std::string diagnostics;
mlir::MLIRContext& context() {
  static auto* ctx = [] {
    mlir::DialectRegistry reg;
    reg.insert<mo::MQTOptDialect, mlir::func::FuncDialect, mlir::cf::ControlFlowDialect, mlir::arith::ArithDialect>();
    auto* c = new mlir::MLIRContext(reg, mlir::MLIRContext::Threading::DISABLED);
    c->loadAllAvailableDialects();
    c->getDiagEngine().registerHandler([](mlir::Diagnostic& d) {
      diagnostics += d.str() + "; ";
      return mlir::success();
    });
    return c;
  }();
  return *ctx;
}
mlir::OwningOpRef<mlir::ModuleOp> parse(const std::string& text) {
  diagnostics.clear();
  return mlir::parseSourceString<mlir::ModuleOp>(text, &context());
}
std::string print(mlir::ModuleOp m) {
  std::string s;
  llvm::raw_string_ostream os(s);
  m.print(os);
  return s;
}

// --- what a program means -----------------------------------------------------------------------------------
struct Invalid : std::runtime_error {
  using std::runtime_error::runtime_error;
};
struct Unsupported : std::runtime_error {
  using std::runtime_error::runtime_error;
};
struct Val {
  enum Kind { Qubit, Register, Int, Real } k = Int;
  unsigned qubit = 0;                 // Qubit
  unsigned reg = 0;                   // Register: ordinal of its allocation
  std::map<std::size_t, int> slots;   // Register: qubit, or -1 for an extracted one
  std::int64_t i = 0;
  double x = 0;
  bool used = false;
};
struct Path {
  Vec v = Vec(1, C(1));
  unsigned n = 0;
  unsigned regs = 0;
  llvm::DenseMap<mlir::Value, Val> env;
  std::map<std::pair<unsigned, std::size_t>, int> out; // released registers
  mlir::Block* block = nullptr;
  mlir::Block::iterator it;
};
struct Meaning {
  // classical results -> unnormalised state of the released qubits
  std::map<std::vector<std::int64_t>, Mat> e;
  double lost = 0;
  std::size_t paths = 0;
  std::size_t steps = 0;
};
qc::OpType typeOf(llvm::StringRef mnemonic) {
  static const std::map<std::string, qc::OpType> m = {
      {"I", qc::I},         {"H", qc::H},       {"x", qc::X},       {"y", qc::Y},         {"z", qc::Z},         {"s", qc::S},
      {"sdg", qc::Sdg},     {"t", qc::T},       {"tdg", qc::Tdg},   {"v", qc::V},         {"vdg", qc::Vdg},     {"u", qc::U},
      {"u2", qc::U2},       {"p", qc::P},       {"sx", qc::SX},     {"sxdg", qc::SXdg},   {"rx", qc::RX},       {"ry", qc::RY},
      {"rz", qc::RZ},       {"swap", qc::SWAP}, {"iswap", qc::iSWAP}, {"iswapdg", qc::iSWAPdg}, {"peres", qc::Peres}, {"peresdg", qc::Peresdg},
      {"dcx", qc::DCX},     {"ecr", qc::ECR},   {"rxx", qc::RXX},   {"ryy", qc::RYY},     {"rzz", qc::RZZ},     {"rzx", qc::RZX},
      {"xxminusyy", qc::XXminusYY}, {"xxplusyy", qc::XXplusYY}};
  const auto it = m.find(mnemonic.str());
  return it == m.end() ? qc::None : it->second;
}
Val& get(Path& p, mlir::Value v) {
  const auto it = p.env.find(v);
  if (it == p.env.end()) {
    throw Invalid("a value is used before it is defined");
  }
  return it->second;
}
// qubits and registers can be used once
Val take(Path& p, mlir::Value v) {
  auto& x = get(p, v);
  if (x.k == Val::Qubit || x.k == Val::Register) {
    if (x.used) {
      throw Invalid("a qubit or register value is used twice");
    }
    x.used = true;
  }
  Val c = x;
  c.used = false;
  return c;
}
void define(Path& p, mlir::Value v, Val x) {
  x.used = false;
  p.env[v] = std::move(x);
}
void enter(Path& p, mlir::Block* b, mlir::ValueRange args) {
  if (b->getNumArguments() != args.size()) {
    throw Invalid("wrong number of block arguments");
  }
  std::vector<Val> vs;
  for (const auto a : args) {
    vs.push_back(take(p, a));
  }
  for (std::size_t i = 0; i < vs.size(); ++i) {
    define(p, b->getArgument(i), vs[i]);
  }
  p.block = b;
  p.it = b->begin();
}
void finish(Meaning& m, Path& p, const std::vector<std::int64_t>& bits) {
  ++m.paths;
  // order the released qubits by register slot, trace out everything else
  std::vector<unsigned> order;
  std::vector<std::int64_t> key = bits;
  for (const auto& [slot, q] : p.out) {
    key.push_back(q >= 0 ? -2 : -1);
    if (q >= 0) {
      order.push_back(static_cast<unsigned>(q));
    }
  }
  std::vector<unsigned> rest;
  for (unsigned q = 0; q < p.n; ++q) {
    if (std::find(order.begin(), order.end(), q) == order.end()) {
      rest.push_back(q);
    }
  }
  const std::size_t d = std::size_t{1} << order.size();
  Mat rho(d);
  auto at = [&](std::size_t i, std::size_t e) {
    std::size_t k = 0;
    for (std::size_t j = 0; j < order.size(); ++j) {
      k |= ((i >> j) & 1U) << order[j];
    }
    for (std::size_t j = 0; j < rest.size(); ++j) {
      k |= ((e >> j) & 1U) << rest[j];
    }
    return p.v[k];
  };
  for (std::size_t e = 0; e < (std::size_t{1} << rest.size()); ++e) {
    for (std::size_t i = 0; i < d; ++i) {
      const auto x = at(i, e);
      if (x == C(0)) {
        continue;
      }
      for (std::size_t j = 0; j < d; ++j) {
        rho.at(i, j) += x * std::conj(at(j, e));
      }
    }
  }
  const auto it = m.e.find(key);
  if (it == m.e.end()) {
    m.e.emplace(key, rho);
  } else {
    it->second = it->second + rho;
  }
}
Meaning interpret(mlir::ModuleOp module) {
  Meaning m;
  auto funcs = module.getOps<mlir::func::FuncOp>();
  if (funcs.empty()) {
    throw Invalid("no function");
  }
  std::vector<Path> todo(1);
  todo[0].block = &(*funcs.begin()).getBody().front();
  todo[0].it = todo[0].block->begin();
  while (!todo.empty()) {
    Path p = std::move(todo.back());
    todo.pop_back();
    bool running = true;
    while (running) {
      if (++m.steps > 200000) {
        throw Unsupported("too long");
      }
      if (p.it == p.block->end()) {
        throw Invalid("a block without terminator");
      }
      mlir::Operation& op = *p.it;
      ++p.it;
      auto indexOf = [&](mlir::Value v, std::optional<std::uint64_t> attr) -> std::size_t {
        return attr.has_value() ? static_cast<std::size_t>(*attr) : static_cast<std::size_t>(get(p, v).i);
      };
      if (auto a = mlir::dyn_cast<mo::AllocOp>(op)) {
        const auto n = indexOf(a.getSize(), a.getSizeAttr());
        Val r;
        r.k = Val::Register;
        r.reg = p.regs++;
        for (std::size_t i = 0; i < n; ++i) {
          r.slots[i] = static_cast<int>(p.n++);
        }
        if (p.n > 8) {
          throw Unsupported("too many qubits");
        }
        p.v.resize(std::size_t{1} << p.n, C(0));
        define(p, a.getQureg(), r);
      } else if (auto e = mlir::dyn_cast<mo::ExtractOp>(op)) {
        auto r = take(p, e.getInQureg());
        const auto i = indexOf(e.getIndex(), e.getIndexAttr());
        if (r.slots.count(i) == 0 || r.slots[i] < 0) {
          throw Invalid("a qubit is extracted that the register does not hold");
        }
        Val q;
        q.k = Val::Qubit;
        q.qubit = static_cast<unsigned>(r.slots[i]);
        r.slots[i] = -1;
        define(p, e.getOutQureg(), r);
        define(p, e.getOutQubit(), q);
      } else if (auto s = mlir::dyn_cast<mo::InsertOp>(op)) {
        auto r = take(p, s.getInQureg());
        const auto q = take(p, s.getInQubit());
        const auto i = indexOf(s.getIndex(), s.getIndexAttr());
        if (r.slots.count(i) == 0 || r.slots[i] >= 0) {
          throw Invalid("a qubit is inserted where the register holds one or has no place");
        }
        r.slots[i] = static_cast<int>(q.qubit);
        define(p, s.getOutQureg(), r);
      } else if (auto d = mlir::dyn_cast<mo::DeallocOp>(op)) {
        const auto r = take(p, d.getQureg());
        for (const auto& [i, q] : r.slots) {
          p.out[{r.reg, i}] = q;
        }
      } else if (auto ms = mlir::dyn_cast<mo::MeasureOp>(op)) {
        std::vector<unsigned> qs;
        for (const auto in : ms.getInQubits()) {
          const auto x = take(p, in);
          qs.push_back(x.qubit);
        }
        std::vector<std::pair<Path, std::vector<bool>>> alts;
        alts.emplace_back(std::move(p), std::vector<bool>{});
        for (const auto q : qs) {
          std::vector<std::pair<Path, std::vector<bool>>> next;
          for (auto& [a0, bits] : alts) {
            for (const bool one : {false, true}) {
              auto v = a0.v;
              project(v, q, one);
              const auto w = norm2(v);
              if (w < 1e-14) {
                continue;
              }
              if (w < 1e-5) {
                m.lost += w;
                continue;
              }
              Path c = a0;
              c.v = std::move(v);
              auto b2 = bits;
              b2.push_back(one);
              next.emplace_back(std::move(c), b2);
            }
          }
          alts = std::move(next);
        }
        for (auto& [a0, bits] : alts) {
          for (std::size_t i = 0; i < qs.size(); ++i) {
            Val q;
            q.k = Val::Qubit;
            q.qubit = qs[i];
            define(a0, ms.getOutQubits()[i], q);
            Val b;
            b.i = bits[i] ? 1 : 0;
            define(a0, ms.getOutBits()[i], b);
          }
        }
        if (alts.empty()) {
          break;
        }
        p = std::move(alts.back().first);
        alts.pop_back();
        for (auto& a0 : alts) {
          todo.push_back(std::move(a0.first));
        }
        if (todo.size() > 3000) {
          throw Unsupported("too many paths");
        }
      } else if (auto c = mlir::dyn_cast<mlir::arith::ConstantOp>(op)) {
        Val x;
        if (auto f = mlir::dyn_cast<mlir::FloatAttr>(c.getValue())) {
          x.k = Val::Real;
          x.x = f.getValueAsDouble();
        } else if (auto i = mlir::dyn_cast<mlir::IntegerAttr>(c.getValue())) {
          x.i = i.getType().isInteger(1) ? static_cast<std::int64_t>(i.getValue().getZExtValue()) : i.getInt();
        } else {
          throw Unsupported("constant");
        }
        define(p, c.getResult(), x);
      } else if (auto add = mlir::dyn_cast<mlir::arith::AddFOp>(op)) {
        Val x;
        x.k = Val::Real;
        x.x = get(p, add.getLhs()).x + get(p, add.getRhs()).x;
        define(p, add.getResult(), x);
      } else if (auto br = mlir::dyn_cast<mlir::cf::BranchOp>(op)) {
        enter(p, br.getDest(), br.getDestOperands());
      } else if (auto cb = mlir::dyn_cast<mlir::cf::CondBranchOp>(op)) {
        if (get(p, cb.getCondition()).i != 0) {
          enter(p, cb.getTrueDest(), cb.getTrueDestOperands());
        } else {
          enter(p, cb.getFalseDest(), cb.getFalseDestOperands());
        }
      } else if (auto ret = mlir::dyn_cast<mlir::func::ReturnOp>(op)) {
        std::vector<std::int64_t> bits;
        for (const auto v : ret.getOperands()) {
          const auto x = take(p, v);
          if (x.k == Val::Int) {
            bits.push_back(x.i);
          } else if (x.k == Val::Register) {
            for (const auto& [i, q] : x.slots) {
              p.out[{x.reg, i}] = q;
            }
          } else {
            throw Unsupported("returned value");
          }
        }
        finish(m, p, bits);
        running = false;
      } else if (auto u = mlir::dyn_cast<mo::UnitaryInterface>(op)) {
        std::vector<double> params;
        {
          const auto stat = op.getAttrOfType<mlir::DenseF64ArrayAttr>("static_params");
          const auto mask = op.getAttrOfType<mlir::DenseBoolArrayAttr>("params_mask");
          std::vector<double> dyn;
          for (const auto o : op.getOperands()) {
            if (mlir::isa<mlir::FloatType>(o.getType())) {
              dyn.push_back(get(p, o).x);
            }
          }
          std::size_t si = 0;
          std::size_t di = 0;
          const std::size_t total = dyn.size() + (stat ? stat.size() : 0);
          for (std::size_t i = 0; i < total; ++i) {
            const bool isStatic = mask ? mask[static_cast<std::int64_t>(i)] : dyn.empty();
            if (isStatic) {
              params.push_back(stat[static_cast<std::int64_t>(si++)]);
            } else {
              params.push_back(dyn.at(di++));
            }
          }
        }
        std::vector<unsigned> t;
        std::vector<Ctl> ctl;
        std::vector<Val> all;
        for (const auto o : u.getInQubits()) {
          all.push_back(take(p, o));
          t.push_back(all.back().qubit);
        }
        for (const auto o : u.getPosCtrlQubits()) {
          all.push_back(take(p, o));
          ctl.push_back({all.back().qubit, true});
        }
        for (const auto o : u.getNegCtrlQubits()) {
          all.push_back(take(p, o));
          ctl.push_back({all.back().qubit, false});
        }
        std::set<unsigned> distinct;
        for (const auto& x : all) {
          if (!distinct.insert(x.qubit).second) {
            throw Invalid("a gate uses a qubit twice");
          }
        }
        const auto name = op.getName().stripDialect();
        if (name != "barrier" && name != "GPhase") {
          const auto type = typeOf(name);
          if (type == qc::None) {
            throw Unsupported("gate");
          }
          applyMatrix(p.v, gateMatrix(type, params), t, ctl);
        }
        if (all.size() != u.getOutQubits().size()) {
          throw Invalid("wrong number of results");
        }
        for (std::size_t i = 0; i < all.size(); ++i) {
          define(p, u.getOutQubits()[i], all[i]);
        }
      } else {
        throw Unsupported("operation " + op.getName().getStringRef().str());
      }
    }
  }
  return m;
}
double dist(const Meaning& a, const Meaning& b) {
  double d = 0;
  auto trace = [](const Mat& x) {
    double t = 0;
    for (std::size_t i = 0; i < x.n; ++i) {
      t += x.at(i, i).real();
    }
    return t;
  };
  for (const auto* s : {&a, &b}) {
    const auto& o = s == &a ? b : a;
    for (const auto& [k, x] : s->e) {
      const auto it = o.e.find(k);
      d = std::max(d, it == o.e.end() || it->second.n != x.n ? trace(x) : vf::dist(x, it->second));
    }
  }
  return d;
}

// --- random programs ----------------------------------------------------------------------------------------
const std::string QT = "!mqtopt.Qubit";
const std::string RT = "!mqtopt.QubitRegister";
struct Env {
  std::vector<std::string> q; // current name of every qubit, empty once dropped
  std::vector<std::string> bits;
};
struct Gen {
  Rng& r;
  unsigned n = 3;
  bool cfg = true;
  bool loops = false;
  bool inverses = false;
  int next = 0;
  int blocks = 0;
  int budget = 0;
  int ifs = 0;
  int measures = 0;
  bool inLoop = false;
  std::vector<std::string> floats;
  std::string last; // text of gates whose inverse may follow
  struct Placed {
    qc::OpType type;
    std::vector<unsigned> t, pos, neg;
  };
  std::vector<Placed> placed;

  explicit Gen(Rng& rng) : r(rng) {}
  std::string name(const char* p) { return "%" + std::string(p) + std::to_string(next++); }
  std::string label() { return "^b" + std::to_string(blocks++); }
  static std::string mnemonic(qc::OpType t) {
    switch (t) {
    case qc::I:
      return "I";
    case qc::H:
      return "H";
    case qc::XXminusYY:
      return "xxminusyy";
    case qc::XXplusYY:
      return "xxplusyy";
    default:
      return qc::toString(t);
    }
  }
  std::string number() {
    char b[40];
    std::snprintf(b, sizeof b, "%.6e", r.chance(0.2) ? 0.0 : r.uniform(-6, 6));
    return b;
  }
  std::vector<unsigned> live(const Env& e) const {
    std::vector<unsigned> l;
    for (unsigned i = 0; i < e.q.size(); ++i) {
      if (!e.q[i].empty()) {
        l.push_back(i);
      }
    }
    return l;
  }
  void emitGate(std::ostream& o, Env& e, const Placed& g) {
    std::string params;
    const auto np = static_cast<std::size_t>(gateInfo(g.type).params);
    if (np > 0) {
      std::vector<bool> stat(np);
      std::string dyn;
      std::string st;
      std::string mask;
      std::size_t ns = 0;
      const auto mode = r.below(3);
      for (std::size_t i = 0; i < np; ++i) {
        stat[i] = mode == 0 || floats.empty() || (mode == 2 && r.chance(0.5));
        if (stat[i]) {
          st += (st.empty() ? "" : ", ") + number();
          ++ns;
        } else {
          dyn += (dyn.empty() ? "" : ", ") + r.pick(floats);
        }
        mask += std::string(i == 0 ? "" : ", ") + (stat[i] ? "true" : "false");
      }
      params = dyn;
      if (ns > 0) {
        params += " static [" + st + "]";
      }
      if ((ns > 0 && ns < np) || (ns > 0 && r.chance(0.3))) {
        params += " mask [" + mask + "]";
      }
    }
    std::string in;
    std::string pc;
    std::string nc;
    std::vector<unsigned> all;
    auto add = [&](std::string& s, const std::vector<unsigned>& qs) {
      for (const auto q : qs) {
        s += (s.empty() ? "" : ", ") + e.q[q];
        all.push_back(q);
      }
    };
    add(in, g.t);
    add(pc, g.pos);
    add(nc, g.neg);
    std::string out;
    std::string types;
    std::vector<std::string> names;
    const bool packed = all.size() > 1 && r.chance(0.3);
    const auto base = name("g");
    for (std::size_t i = 0; i < all.size(); ++i) {
      names.push_back(packed ? base + "#" + std::to_string(i) : i == 0 ? base : name("g"));
      out += (out.empty() ? "" : ", ") + names.back();
      types += std::string(i == 0 ? "" : ", ") + QT;
    }
    if (packed) {
      out = base + ":" + std::to_string(all.size());
    }
    o << "    " << out << " = mqtopt." << mnemonic(g.type) << "(" << params << ") " << in << (pc.empty() ? "" : " ctrl " + pc)
      << (nc.empty() ? "" : " nctrl " + nc) << " : " << types << "\n";
    for (std::size_t i = 0; i < all.size(); ++i) {
      e.q[all[i]] = names[i];
    }
  }
  void gate(std::ostream& o, Env& e) {
    auto l = live(e);
    if (l.empty()) {
      return;
    }
    if (inverses && !placed.empty() && r.chance(0.5)) {
      // the inverse of an earlier gate, sometimes almost
      auto g = placed[placed.size() - 1 - r.below(std::min<std::size_t>(placed.size(), 3))];
      static const std::map<qc::OpType, qc::OpType> inv = {
          {qc::S, qc::Sdg},         {qc::Sdg, qc::S},         {qc::T, qc::Tdg},   {qc::Tdg, qc::T},         {qc::V, qc::Vdg},
          {qc::Vdg, qc::V},         {qc::SX, qc::SXdg},       {qc::SXdg, qc::SX}, {qc::iSWAP, qc::iSWAPdg}, {qc::iSWAPdg, qc::iSWAP},
          {qc::Peres, qc::Peresdg}, {qc::Peresdg, qc::Peres}};
      const auto it = inv.find(g.type);
      if (it != inv.end() && r.chance(0.85)) {
        g.type = it->second;
      }
      if (r.chance(0.25)) {
        switch (r.below(5)) {
        case 0:
          std::swap(g.pos, g.neg);
          break;
        case 1:
          if (!g.pos.empty()) {
            std::swap(g.t[0], g.pos[0]);
          }
          break;
        case 2:
          std::reverse(g.pos.begin(), g.pos.end());
          break;
        case 3:
          std::reverse(g.t.begin(), g.t.end());
          break;
        default:
          if (!g.pos.empty()) {
            g.neg.push_back(g.pos.back());
            g.pos.pop_back();
          }
        }
      }
      bool ok = true;
      for (const auto* v : {&g.t, &g.pos, &g.neg}) {
        for (const auto q : *v) {
          ok = ok && !e.q[q].empty();
        }
      }
      if (ok) {
        placed.push_back(g);
        emitGate(o, e, g);
        return;
      }
    }
    Placed g;
    r.shuffle(l);
    static const std::vector<qc::OpType> paired = {qc::X, qc::Y,  qc::Z,    qc::H,   qc::I,   qc::SWAP,  qc::ECR,     qc::T,     qc::S,
                                                   qc::V, qc::SX, qc::SXdg, qc::Tdg, qc::Sdg, qc::iSWAP, qc::iSWAPdg, qc::Peres, qc::DCX};
    static const std::vector<qc::OpType> simple = {qc::X, qc::Y, qc::Z, qc::S, qc::H, qc::RX, qc::T, qc::U};
    if (inverses && r.chance(0.9)) {
      g.type = r.pick(paired);
    } else if (!inverses && r.chance(0.6)) {
      g.type = r.pick(simple);
    } else {
      g.type = r.pick(allGates()).t;
    }
    const auto nt = static_cast<std::size_t>(gateInfo(g.type).targets);
    if (l.size() < nt) {
      return;
    }
    std::size_t i = 0;
    for (; i < nt; ++i) {
      g.t.push_back(l[i]);
    }
    const double pc = r.chance(0.6) ? 0 : 0.5;
    for (; i < l.size(); ++i) {
      if (r.chance(pc)) {
        (r.chance(0.6) ? g.pos : g.neg).push_back(l[i]);
      }
    }
    placed.push_back(g);
    emitGate(o, e, g);
  }
  void measure(std::ostream& o, Env& e, unsigned q) {
    const auto a = name("m");
    const auto b = name("c");
    o << "    " << a << ", " << b << " = \"mqtopt.measure\"(" << e.q[q] << ") : (" << QT << ") -> (" << QT << ", i1)\n";
    e.q[q] = a;
    e.bits.push_back(b);
    ++measures;
  }
  void measureMany(std::ostream& o, Env& e) {
    auto l = live(e);
    r.shuffle(l);
    const auto k = std::min<std::size_t>(l.size(), 2);
    if (k < 2) {
      return;
    }
    const auto a = name("m");
    o << "    " << a << ":4 = \"mqtopt.measure\"(" << e.q[l[0]] << ", " << e.q[l[1]] << ") : (" << QT << ", " << QT << ") -> (" << QT << ", " << QT
      << ", i1, i1)\n";
    e.q[l[0]] = a + "#0";
    e.q[l[1]] = a + "#1";
    e.bits.push_back(a + "#2");
    e.bits.push_back(a + "#3");
    measures += 2;
  }
  struct Edge {
    std::vector<std::string> args;
    std::vector<std::string> types;
    void add(const std::string& a, const std::string& t) {
      args.push_back(a);
      types.push_back(t);
    }
    [[nodiscard]] std::string str() const {
      if (args.empty()) {
        return "";
      }
      std::string a;
      std::string t;
      for (std::size_t i = 0; i < args.size(); ++i) {
        a += (i == 0 ? "" : ", ") + args[i];
        t += (i == 0 ? "" : ", ") + types[i];
      }
      return "(" + a + " : " + t + ")";
    }
  };
  // enter a block with some of the qubits and bits as arguments; returns the header and sets the edge
  std::string header(const std::string& lbl, Env& e, Edge& edge, double p) {
    std::vector<std::pair<bool, std::size_t>> c;
    for (const auto q : live(e)) {
      c.emplace_back(true, q);
    }
    if (!e.bits.empty()) {
      c.emplace_back(false, r.below(e.bits.size()));
    }
    r.shuffle(c);
    std::string h;
    for (const auto& [isQ, i] : c) {
      if (!r.chance(isQ ? p : 0.2)) {
        continue;
      }
      auto& v = isQ ? e.q[i] : e.bits[i];
      const auto t = isQ ? QT : std::string("i1");
      edge.add(v, t);
      v = name("a");
      h += (h.empty() ? "" : ", ") + v + ": " + t;
    }
    return "  " + lbl + (h.empty() ? "" : "(" + h + ")") + ":\n";
  }
  void conditional(std::ostream& o, Env& e) {
    if (live(e).empty()) {
      return;
    }
    if (e.bits.empty() || r.chance(0.6)) {
      measure(o, e, r.pick(live(e)));
    }
    const auto cond = r.chance(0.7) ? e.bits.back() : r.pick(e.bits);
    ++ifs;
    const auto nBits = e.bits.size();
    const auto style = r.below(10); // 0: both sides directly to the end, 1-3: one side directly
    const auto merge = label();
    struct Side {
      bool direct = false;
      std::string lbl, head, body;
      Edge in;
      Env env;
    };
    Side s[2];
    const double p = r.pick(std::vector<double>{0, 0.4, 0.8, 1});
    for (int k = 0; k < 2; ++k) {
      s[k].direct = style == 0 || (style <= 3 && k == static_cast<int>(style % 2));
      s[k].env = e;
      if (s[k].direct) {
        continue;
      }
      s[k].lbl = label();
      s[k].head = header(s[k].lbl, s[k].env, s[k].in, p);
      std::ostringstream b;
      body(b, s[k].env, static_cast<int>(r.below(4)));
      s[k].body = b.str();
    }
    // what the sides hand over
    Env m = e;
    Edge out[2];
    std::string h;
    auto l = std::vector<unsigned>{};
    for (unsigned q = 0; q < e.q.size(); ++q) {
      l.push_back(q);
    }
    r.shuffle(l);
    std::vector<unsigned> from(e.q.size());
    for (unsigned q = 0; q < e.q.size(); ++q) {
      from[q] = q;
    }
    if (r.chance(0.25) && e.q.size() > 1) {
      const auto a = r.below(e.q.size());
      const auto b = r.below(e.q.size());
      if (!s[1].env.q[a].empty() && !s[1].env.q[b].empty()) {
        std::swap(from[a], from[b]);
      }
    }
    for (const auto q : l) {
      const auto& x = s[0].env.q[q];
      const auto& y = s[1].env.q[from[q]];
      if (x.empty() || y.empty()) {
        m.q[q].clear();
        continue;
      }
      if (x == y && r.chance(0.5)) {
        m.q[q] = x;
        continue;
      }
      if (r.chance(0.03)) { // not needed any more
        m.q[q].clear();
        continue;
      }
      out[0].add(x, QT);
      out[1].add(y, QT);
      m.q[q] = name("a");
      h += (h.empty() ? "" : ", ") + m.q[q] + ": " + QT;
    }
    m.bits.resize(nBits);
    if (!s[0].env.bits.empty() && !s[1].env.bits.empty() && r.chance(0.4)) {
      out[0].add(r.pick(s[0].env.bits), "i1");
      out[1].add(r.pick(s[1].env.bits), "i1");
      m.bits.push_back(name("a"));
      h += (h.empty() ? "" : ", ") + m.bits.back() + ": i1";
    }
    o << "    cf.cond_br " << cond;
    for (int k = 0; k < 2; ++k) {
      o << ", " << (s[k].direct ? merge + out[k].str() : s[k].lbl + s[k].in.str());
    }
    o << "\n";
    for (int k = 0; k < 2; ++k) {
      if (!s[k].direct) {
        o << s[k].head << s[k].body << "    cf.br " << merge << out[k].str() << "\n";
      }
    }
    o << "  " << merge << (h.empty() ? "" : "(" + h + ")") << ":\n";
    e = m;
  }
  void loop(std::ostream& o, Env& e) {
    auto l = live(e);
    if (l.empty()) {
      return;
    }
    const auto head = label();
    const auto exit = label();
    Env before = e;
    Env in = e;
    Edge enter;
    std::ostringstream b;
    r.shuffle(l);
    std::vector<unsigned> carried;
    std::string h;
    for (const auto q : l) {
      if (carried.empty() || r.chance(0.8)) {
        carried.push_back(q);
        enter.add(e.q[q], QT);
        in.q[q] = name("a");
        h += (h.empty() ? "" : ", ") + in.q[q] + ": " + QT;
      } else {
        in.q[q].clear();
      }
    }
    inLoop = true;
    body(b, in, static_cast<int>(r.below(4)));
    for (const auto q : carried) {
      if (in.q[q].empty()) {
        inLoop = false;
        return; // a qubit was dropped inside: no loop here
      }
    }
    const auto c = carried[0];
    emitGate(b, in, {qc::H, {c}, {}, {}});
    measure(b, in, c);
    const auto cond = in.bits.back();
    if (r.chance(0.5) && carried.size() > 1) {
      emitGate(b, in, {r.chance(0.5) ? qc::X : qc::Y, {carried[1]}, {}, {}});
    }
    if (r.chance(0.5)) {
      emitGate(b, in, {qc::X, {c}, {}, {}});
    }
    inLoop = false;
    Edge back;
    Edge out;
    std::string h2;
    Env after = before;
    for (const auto q : carried) {
      back.add(in.q[q], QT);
    }
    // the exit takes what it uses as arguments or directly
    for (const auto q : carried) {
      if (r.chance(0.5)) {
        out.add(in.q[q], QT);
        after.q[q] = name("a");
        h2 += (h2.empty() ? "" : ", ") + after.q[q] + ": " + QT;
      } else {
        after.q[q] = in.q[q];
      }
    }
    const bool pol = r.chance(0.5);
    o << "    cf.br " << head << enter.str() << "\n  " << head << "(" << h << "):\n" << b.str() << "    cf.cond_br " << cond << ", " << (pol ? head + back.str() : exit + out.str())
      << ", " << (pol ? exit + out.str() : head + back.str()) << "\n  " << exit << (h2.empty() ? "" : "(" + h2 + ")") << ":\n";
    e = after;
  }
  void body(std::ostream& o, Env& e, int k) {
    for (int i = 0; i < k; ++i) {
      if (--budget < 0) {
        return;
      }
      const auto x = r.below(100);
      if (cfg && x < 22 && ifs < 5 && (!inLoop || ifs < 2)) {
        conditional(o, e);
      } else if (cfg && loops && x < 32 && !inLoop) {
        loop(o, e);
        loops = false;
      } else if (x < 38 && measures < 5 && !inLoop) {
        if (r.chance(0.2)) {
          measureMany(o, e);
        } else if (!live(e).empty()) {
          measure(o, e, r.pick(live(e)));
        }
      } else if (x < 41) {
        auto l = live(e);
        r.shuffle(l);
        if (!l.empty()) {
          Placed g;
          g.type = qc::Barrier;
          const auto kk = r.range(1, l.size());
          std::string in;
          std::string types;
          std::string out;
          for (std::size_t j = 0; j < kk; ++j) {
            in += (j == 0 ? "" : ", ") + e.q[l[j]];
            types += (j == 0 ? "" : ", ") + QT;
            e.q[l[j]] = name("g");
            out += (j == 0 ? "" : ", ") + e.q[l[j]];
          }
          o << "    " << out << " = mqtopt.barrier() " << in << " : " << types << "\n";
        }
      } else if (x < 43) {
        const auto f = name("f");
        if (floats.empty() || r.chance(0.6)) {
          // defined at the start of the function
        } else {
          o << "    " << f << " = arith.addf " << floats[0] << ", " << floats[0] << " : f64\n";
          emitDyn(o, e, f);
        }
      } else {
        gate(o, e);
      }
    }
  }
  void emitDyn(std::ostream& o, Env& e, const std::string& f) {
    const auto l = live(e);
    if (l.empty()) {
      return;
    }
    const auto q = r.pick(l);
    const auto g = name("g");
    o << "    " << g << " = mqtopt.rx(" << f << ") " << e.q[q] << " : " << QT << "\n";
    e.q[q] = g;
  }
  // a whole function
  std::string program() {
    std::ostringstream o;
    Env e;
    struct Reg {
      std::string v;
      std::vector<unsigned> q;
    };
    std::vector<Reg> regs;
    n = static_cast<unsigned>(r.range(1, 4));
    budget = static_cast<int>(r.range(1, 26));
    std::ostringstream pre;
    if (r.chance(0.5)) {
      const auto k = r.range(1, 2);
      for (std::size_t i = 0; i < k; ++i) {
        floats.push_back(name("f"));
        pre << "    " << floats.back() << " = arith.constant " << number() << " : f64\n";
      }
    }
    unsigned left = n;
    while (left > 0) {
      const auto k = r.chance(0.7) ? left : static_cast<unsigned>(r.range(1, left));
      Reg g;
      g.v = name("r");
      if (r.chance(0.8)) {
        pre << "    " << g.v << " = \"mqtopt.allocQubitRegister\"() <{size_attr = " << k << " : i64}> : () -> " << RT << "\n";
      } else {
        const auto s = name("s");
        pre << "    " << s << " = arith.constant " << k << " : i64\n    " << g.v << " = \"mqtopt.allocQubitRegister\"(" << s << ") : (i64) -> " << RT << "\n";
      }
      for (unsigned i = 0; i < k; ++i) {
        g.q.push_back(static_cast<unsigned>(e.q.size()));
        e.q.emplace_back();
      }
      for (const auto i : r.perm(k)) {
        const auto nr = name("r");
        const auto q = name("q");
        if (r.chance(0.85)) {
          pre << "    " << nr << ", " << q << " = \"mqtopt.extractQubit\"(" << g.v << ") <{index_attr = " << i << " : i64}> : (" << RT << ") -> (" << RT << ", " << QT << ")\n";
        } else {
          const auto s = name("s");
          pre << "    " << s << " = arith.constant " << i << " : i64\n    " << nr << ", " << q << " = \"mqtopt.extractQubit\"(" << g.v << ", " << s << ") : (" << RT << ", i64) -> (" << RT
              << ", " << QT << ")\n";
        }
        g.v = nr;
        e.q[g.q[i]] = q;
      }
      regs.push_back(g);
      left -= k;
    }
    o << pre.str();
    for (unsigned q = 0; q < n; ++q) {
      if (r.chance(0.7)) {
        emitGate(o, e, {qc::U, {q}, {}, {}});
      }
    }
    while (budget > 0) {
      body(o, e, budget);
    }
    // everything still alive goes back
    std::vector<std::string> rets;
    std::vector<std::string> types;
    for (auto& g : regs) {
      for (const auto i : r.perm(g.q.size())) {
        const auto& q = e.q[g.q[i]];
        if (q.empty() || r.chance(0.05)) {
          continue;
        }
        const auto nr = name("r");
        o << "    " << nr << " = \"mqtopt.insertQubit\"(" << g.v << ", " << q << ") <{index_attr = " << i << " : i64}> : (" << RT << ", " << QT << ") -> " << RT << "\n";
        g.v = nr;
      }
      if (r.chance(0.7)) {
        o << "    \"mqtopt.deallocQubitRegister\"(" << g.v << ") : (" << RT << ") -> ()\n";
      } else {
        rets.push_back(g.v);
        types.push_back(RT);
      }
    }
    for (const auto& b : e.bits) {
      if (r.chance(0.6)) {
        rets.push_back(b);
        types.emplace_back("i1");
      }
    }
    std::string a;
    std::string t;
    for (std::size_t i = 0; i < rets.size(); ++i) {
      a += (i == 0 ? "" : ", ") + rets[i];
      t += (i == 0 ? "" : ", ") + types[i];
    }
    o << "    return" << (rets.empty() ? "" : " " + a + " : " + t) << "\n";
    return "module {\n  func.func @main()" + (rets.empty() ? std::string() : " -> (" + t + ")") + " {\n" + o.str() + "  }\n}\n";
  }
};

// --- running passes -----------------------------------------------------------------------------------------
struct Quiet { // the passes print
  int fd;
  Quiet() {
    std::fflush(stdout);
    fd = ::dup(1);
    const int n = ::open("/dev/null", O_WRONLY);
    ::dup2(n, 1);
    ::close(n);
  }
  ~Quiet() {
    llvm::outs().flush();
    std::fflush(stdout);
    ::dup2(fd, 1);
    ::close(fd);
  }
};
bool run(mlir::ModuleOp m, const std::function<void(mlir::PassManager&)>& passes) {
  const Quiet quiet;
  mlir::PassManager pm(&context());
  pm.enableVerifier(true);
  passes(pm);
  return mlir::succeeded(pm.run(m));
}
std::optional<Meaning> meaning(Ctx& c, mlir::ModuleOp m, const std::string& when, const std::string& text) {
  try {
    return interpret(m);
  } catch (const Unsupported& e) {
    c.count("skipped: " + std::string(e.what()));
  } catch (const Invalid& e) {
    c.fail(when + "-invalid", cat(e.what(), "\n", text));
  }
  return std::nullopt;
}
std::size_t countOps(mlir::ModuleOp m) {
  std::size_t k = 0;
  m.walk([&](mlir::Operation* o) { k += mlir::isa<mo::UnitaryInterface>(o) ? 1 : 0; });
  return k;
}
bool passes(Ctx& c, const std::string& text, const std::string& what, const std::function<void(mlir::PassManager&)>& f, mlir::OwningOpRef<mlir::ModuleOp>* result = nullptr) {
  auto m = parse(text);
  if (!c.check(static_cast<bool>(m), "valid-program-rejected", diagnostics)) {
    return false;
  }
  const auto before = meaning(c, *m, "generated-program", "");
  if (!before) {
    return false;
  }
  const auto ops = countOps(*m);
  diagnostics.clear();
  if (!c.check(run(*m, f), what + "-failed", diagnostics)) {
    return false;
  }
  const auto out = print(*m);
  if (!c.check(mlir::succeeded(mlir::verify(*m)), what + "-unverifiable", diagnostics + "\n" + out)) {
    return false;
  }
  const auto after = meaning(c, *m, what + "-result", out);
  if (!after) {
    return false;
  }
  const double d = dist(*before, *after);
  c.check(d < 1e-7 + before->lost + after->lost, what + "-changes-program", cat("distance ", d, "\n", out));
  c.check(before->lost < 0.05, "generator", "lost");
  c.count("paths", before->paths);
  c.count(countOps(*m) == ops ? "programs with unchanged gates" : countOps(*m) < ops ? "programs with fewer gates" : "programs with more gates");
  if (result != nullptr) {
    *result = std::move(m);
  }
  return true;
}
void cancel(Ctx& c) {
  Gen g(c.rng);
  g.inverses = true;
  g.cfg = c.rng.chance(0.4);
  g.loops = g.cfg && c.rng.chance(0.3);
  const auto text = g.program();
  announce(c, text);
  mlir::OwningOpRef<mlir::ModuleOp> m;
  if (!passes(c, text, "cancellation", [](auto& pm) { pm.addPass(mo::createCancelConsecutiveInverses()); }, &m)) {
    return;
  }
  // nothing is left to cancel
  static const std::set<std::pair<std::string, std::string>> pairs = {
      {"x", "x"},       {"y", "y"},       {"z", "z"},       {"H", "H"},       {"I", "I"},       {"swap", "swap"},      {"ecr", "ecr"},
      {"t", "tdg"},     {"tdg", "t"},     {"s", "sdg"},     {"sdg", "s"},     {"sx", "sxdg"},   {"sxdg", "sx"},        {"v", "vdg"},
      {"vdg", "v"},     {"iswap", "iswapdg"}, {"iswapdg", "iswap"}, {"peres", "peresdg"}, {"peresdg", "peres"}};
  std::string bad;
  m->walk([&](mo::UnitaryInterface u) {
    mlir::Operation* user = nullptr;
    for (const auto v : u.getOutQubits()) {
      for (auto* x : v.getUsers()) {
        if (user != nullptr && user != x) {
          return;
        }
        user = x;
      }
    }
    if (user == nullptr || user->getBlock() != u->getBlock()) {
      return;
    }
    auto w = mlir::dyn_cast<mo::UnitaryInterface>(user);
    if (!w || pairs.count({u->getName().stripDialect().str(), w->getName().stripDialect().str()}) == 0) {
      return;
    }
    const auto ins = w.getAllInQubits();
    if (ins.size() != u.getOutQubits().size() || w.getPosCtrlQubits().size() != u.getPosCtrlQubits().size()) {
      return;
    }
    for (std::size_t i = 0; i < ins.size(); ++i) {
      if (ins[i] != u.getOutQubits()[i]) {
        return;
      }
    }
    bad = u->getName().getStringRef().str();
  });
  c.check(bad.empty(), "inverse-pair-left", cat(bad, "\n", print(*m)));
}
void sink(Ctx& c) {
  Gen g(c.rng);
  g.cfg = true;
  g.loops = c.rng.chance(0.3);
  const auto text = g.program();
  announce(c, text);
  passes(c, text, "sinking", [](auto& pm) { pm.addPass(mo::createQuantumSinkPass()); });
}
void pipeline(Ctx& c) {
  Gen g(c.rng);
  g.inverses = c.rng.chance(0.7);
  g.loops = c.rng.chance(0.2);
  const auto text = g.program();
  std::vector<int> ps(c.rng.range(1, 5));
  std::string s;
  for (auto& p : ps) {
    p = static_cast<int>(c.rng.below(4));
    s += "SCKE"[p];
  }
  announce(c, s + "\n" + text);
  passes(c, text, "pipeline", [&](auto& pm) {
    for (const auto p : ps) {
      if (p == 0) {
        pm.addPass(mo::createQuantumSinkPass());
      } else if (p == 1) {
        pm.addPass(mo::createCancelConsecutiveInverses());
      } else if (p == 2) {
        pm.addPass(mlir::createCanonicalizerPass());
      } else {
        pm.addPass(mlir::createCSEPass());
      }
    }
  });
}
// what the round trip supports: one register, x/y/z/h with positive controls, every qubit measured once
std::string restricted(Rng& r, const std::string& gates) {
  const auto n = static_cast<unsigned>(r.range(1, 5));
  std::ostringstream o;
  int next = 0;
  auto name = [&] { return "%v" + std::to_string(next++); };
  auto reg = name();
  o << "    " << reg << " = \"mqtopt.allocQubitRegister\"() <{size_attr = " << n << " : i64}> : () -> " << RT << "\n";
  std::vector<std::string> q(n);
  std::vector<std::string> bit(n);
  const bool lazy = r.chance(0.4);
  auto extract = [&](unsigned i) {
    if (!q[i].empty()) {
      return;
    }
    const auto nr = name();
    q[i] = name();
    o << "    " << nr << ", " << q[i] << " = \"mqtopt.extractQubit\"(" << reg << ") <{index_attr = " << i << " : i64}> : (" << RT << ") -> (" << RT << ", " << QT << ")\n";
    reg = nr;
  };
  if (!lazy) {
    if (r.chance(0.5)) {
      for (unsigned i = 0; i < n; ++i) {
        extract(i);
      }
    } else {
      for (const auto i : r.perm(n)) {
        extract(static_cast<unsigned>(i));
      }
    }
  }
  auto measure = [&](unsigned i) {
    extract(i);
    const auto a = name();
    bit[i] = name();
    o << "    " << a << ", " << bit[i] << " = \"mqtopt.measure\"(" << q[i] << ") : (" << QT << ") -> (" << QT << ", i1)\n";
    q[i] = a;
  };
  const auto k = r.below(14);
  for (std::size_t j = 0; j < k; ++j) {
    if (r.chance(0.08)) {
      const auto i = static_cast<unsigned>(r.below(n));
      if (bit[i].empty()) {
        measure(i);
        continue;
      }
    }
    auto p = r.perm(n);
    const auto nc = r.chance(0.5) ? 0 : r.below(n);
    std::vector<std::string> outs;
    std::string ctl;
    std::string types = QT;
    for (std::size_t i = 0; i <= nc; ++i) {
      extract(static_cast<unsigned>(p[i]));
    }
    const auto in = q[p[0]];
    q[p[0]] = name();
    std::string out = q[p[0]];
    for (std::size_t i = 1; i <= nc; ++i) {
      ctl += (ctl.empty() ? "" : ", ") + q[p[i]];
      q[p[i]] = name();
      out += ", " + q[p[i]];
      types += ", " + QT;
    }
    o << "    " << out << " = mqtopt." << gates[r.below(gates.size())] << "() " << in << (ctl.empty() ? "" : " ctrl " + ctl) << " : " << types << "\n";
  }
  for (const auto i : r.perm(n)) {
    if (bit[i].empty()) {
      measure(static_cast<unsigned>(i));
    }
  }
  std::string a = reg;
  std::string t = RT;
  for (unsigned i = 0; i < n; ++i) {
    a += ", " + bit[i];
    t += ", i1";
  }
  return "module {\n  func.func @main() -> (" + t + ") {\n" + o.str() + "    return " + a + " : " + t + "\n  }\n}\n";
}
void roundTrip(Ctx& c) {
  const auto text = restricted(c.rng, c.rng.chance(0.3) ? "x" : "xyzH");
  const bool twice = c.rng.chance(0.2);
  announce(c, cat(twice ? "twice\n" : "", text));
  mlir::OwningOpRef<mlir::ModuleOp> m;
  if (!passes(c, text, "round-trip", [](auto& pm) { pm.addPass(mo::createMQTCoreRoundTrip()); }, &m)) {
    return;
  }
  if (twice) {
    // a pass can be applied to several modules
    auto a = parse(text);
    auto b = parse(text);
    const Quiet quiet;
    mlir::PassManager pm(&context());
    pm.addPass(mo::createMQTCoreRoundTrip());
    c.check(mlir::succeeded(pm.run(*a)), "round-trip-failed", diagnostics);
    c.check(mlir::succeeded(pm.run(*b)), "second-round-trip-failed", diagnostics);
    c.check(print(*a) == print(*b), "second-round-trip-differs", print(*b));
  }
}
void textual(Ctx& c) {
  Gen g(c.rng);
  g.inverses = c.rng.chance(0.3);
  g.cfg = c.rng.chance(0.5);
  const auto text = g.program();
  announce(c, text);
  auto m = parse(text);
  if (!c.check(static_cast<bool>(m), "valid-program-rejected", diagnostics)) {
    return;
  }
  const auto before = meaning(c, *m, "generated-program", "");
  std::string out;
  {
    llvm::raw_string_ostream os(out);
    mlir::OpPrintingFlags flags;
    if (c.rng.chance(0.3)) {
      flags.printGenericOpForm();
    }
    m->print(os, flags);
  }
  auto back = parse(out);
  if (!c.check(static_cast<bool>(back), "printed-program-rejected", diagnostics + "\n" + out)) {
    return;
  }
  c.check(print(*back) == print(*m), "printed-program-differs", out);
  const auto after = meaning(c, *back, "printed-program", out);
  if (before && after) {
    c.check(dist(*before, *after) < 1e-9 + before->lost + after->lost, "printed-program-means-something-else", out);
  }
}
// one statement that the dialect does not allow
void verifier(Ctx& c) {
  auto& r = c.rng;
  const auto& g = r.pick(allGates());
  const auto nt = static_cast<std::size_t>(g.targets);
  const auto np = static_cast<std::size_t>(g.params);
  const auto kind = r.below(9);
  auto qs = [&](std::size_t from, std::size_t k) {
    std::string s;
    for (std::size_t i = 0; i < k; ++i) {
      s += cat(i == 0 ? "" : ", ", "%q#", from + i);
    }
    return s;
  };
  auto types = [&](std::size_t k) {
    std::string s;
    for (std::size_t i = 0; i < k; ++i) {
      s += (i == 0 ? "" : ", ") + QT;
    }
    return s;
  };
  auto nums = [&](std::size_t k) {
    std::string s;
    for (std::size_t i = 0; i < k; ++i) {
      s += (i == 0 ? "" : ", ") + std::string("0.5");
    }
    return s;
  };
  auto stat = [&](std::size_t k) { return k == 0 ? std::string() : " static [" + nums(k) + "]"; };
  const auto nc = r.below(3);
  const auto nn = r.below(2);
  auto gate = [&](const std::string& params, std::size_t t, std::size_t outs) {
    return cat("    %o:", outs, " = mqtopt.", Gen::mnemonic(g.t), "(", params, ") ", qs(0, t), nc > 0 ? " ctrl " + qs(t, nc) : "", nn > 0 ? " nctrl " + qs(t + nc, nn) : "", " : ", types(outs), "\n");
  };
  std::string line;
  std::string good;
  switch (kind) {
  case 0: { // more or fewer results than qubits
    std::size_t outs = 0;
    do {
      outs = r.range(1, 7);
    } while (outs == nt + nc + nn);
    line = gate(stat(np), nt, outs);
    break;
  }
  case 1: { // wrong number of targets
    std::size_t t = 0;
    do {
      t = r.range(1, 4);
    } while (t == nt);
    line = gate(stat(np), t, t + nc + nn);
    break;
  }
  case 2: { // wrong number of parameters
    std::size_t p = 0;
    do {
      p = r.below(5);
    } while (p == np);
    line = gate(stat(p), nt, nt + nc + nn);
    break;
  }
  case 3: { // mask of the wrong size, or with the wrong number of static parameters
    std::string mask;
    std::size_t k = 0;
    std::size_t trues = 0;
    std::size_t stats = r.below(np + 1);
    std::size_t dyn = np - stats;
    std::vector<bool> bits;
    do {
      k = r.range(1, 4);
      bits.clear();
      trues = 0;
      for (std::size_t i = 0; i < k; ++i) {
        bits.push_back(r.chance(0.5));
        trues += bits.back() ? 1 : 0;
      }
    } while (k == np && trues == stats);
    for (std::size_t i = 0; i < k; ++i) {
      mask += std::string(i == 0 ? "" : ", ") + (bits[i] ? "true" : "false");
    }
    std::string d;
    for (std::size_t i = 0; i < dyn; ++i) {
      d += (i == 0 ? "" : ", ") + std::string("%f");
    }
    line = gate(d + stat(stats) + " mask [" + mask + "]", nt, nt + nc + nn);
    break;
  }
  case 4: { // mixed parameters without mask
    if (np < 2) {
      return;
    }
    line = gate("%f" + stat(np - 1), nt, nt + nc + nn);
    break;
  }
  case 5:
    line = "    %b:2 = mqtopt.barrier() %q#0 ctrl %q#1 : " + types(2) + "\n";
    break;
  case 6: {
    const auto a = r.range(1, 3);
    const auto b = r.range(1, 4);
    if (a == b) {
      return;
    }
    std::string bits;
    for (std::size_t i = 0; i < b; ++i) {
      bits += ", i1";
    }
    line = cat("    %m:", 2 * b, " = \"mqtopt.measure\"(", qs(0, a), ") : (", types(a), ") -> (", types(b), bits, ")\n");
    break;
  }
  case 7: // sizes and indices: given twice or not at all
    switch (r.below(6)) {
    case 0:
      line = "    %x = \"mqtopt.allocQubitRegister\"() : () -> " + RT + "\n";
      break;
    case 1:
      line = "    %x = \"mqtopt.allocQubitRegister\"(%i) <{size_attr = 1 : i64}> : (i64) -> " + RT + "\n";
      break;
    case 2:
      line = "    %x, %y = \"mqtopt.extractQubit\"(%r) : (" + RT + ") -> (" + RT + ", " + QT + ")\n";
      break;
    case 3:
      line = "    %x, %y = \"mqtopt.extractQubit\"(%r, %i) <{index_attr = 1 : i64}> : (" + RT + ", i64) -> (" + RT + ", " + QT + ")\n";
      break;
    case 4:
      line = "    %x = \"mqtopt.insertQubit\"(%r, %q#0) : (" + RT + ", " + QT + ") -> " + RT + "\n";
      break;
    default:
      line = "    %x = \"mqtopt.insertQubit\"(%r, %q#0, %i) <{index_attr = 1 : i64}> : (" + RT + ", " + QT + ", i64) -> " + RT + "\n";
    }
    break;
  default: // negative sizes and indices
    line = r.chance(0.5) ? "    %x = \"mqtopt.allocQubitRegister\"() <{size_attr = -1 : i64}> : () -> " + RT + "\n"
                         : "    %x, %y = \"mqtopt.extractQubit\"(%r) <{index_attr = -2 : i64}> : (" + RT + ") -> (" + RT + ", " + QT + ")\n";
  }
  const std::string pre = "module {\n  func.func @main(%q0: " + QT + ", %q1: " + QT + ", %q2: " + QT + ", %q3: " + QT + ", %q4: " + QT + ", %q5: " + QT + ", %q6: " + QT +
                          ", %r: " + RT + ", %i: i64, %f: f64) {\n    %q:7 = mqtopt.barrier() %q0, %q1, %q2, %q3, %q4, %q5, %q6 : " + types(7) + "\n";
  const std::string post = "    return\n  }\n}\n";
  announce(c, line);
  const auto ok = parse(pre + gate(stat(np), nt, nt + nc + nn) + post);
  c.check(static_cast<bool>(ok), "valid-operation-rejected", diagnostics);
  const auto m = parse(pre + line + post);
  c.check(!m && !diagnostics.empty(), cat("invalid-operation-accepted-", kind), line);
}
} // namespace

int main(int argc, char** argv) {
  return runMain(argc, argv, "P19",
                 {{"cancel", 20000, 200000, cancel},
                  {"sink", 30000, 300000, sink},
                  {"pipeline", 10000, 100000, pipeline},
                  {"round-trip", 6000, 60000, roundTrip},
                  {"textual", 6000, 60000, textual},
                  {"verifier", 6000, 60000, verifier}});
}
