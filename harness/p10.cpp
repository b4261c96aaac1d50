// P10: every text is imported as a well-formed circuit or rejected with an exception.
// Sanitizers watch memory and undefined behaviour, the driver watches for crashes and hangs; this harness checks the
// well-formedness of what is accepted and the rejection of programs known to be invalid.
#include "common/qasmgen.hpp"
#include "qasm3/Importer.hpp"
#include "ir/operations/ClassicControlledOperation.hpp"
#include "ir/operations/CompoundOperation.hpp"
#include "ir/operations/NonUnitaryOperation.hpp"

#include <chrono>
#include <fstream>
#include <iostream>
#include <sstream>
#include <unistd.h>
using namespace vf;
namespace {
// ------------------------------------------------------------------------------------------------ well-formedness
std::string wellFormed(const qc::Operation* op, const qc::QuantumComputation& q, int depth = 0) {
  if (op == nullptr) {
    return "null operation";
  }
  const auto n = q.getNqubits();
  if (const auto* cc = dynamic_cast<const qc::ClassicControlledOperation*>(op); cc != nullptr) {
    if (const auto& reg = cc->getControlRegister(); reg.has_value()) {
      if (reg->getStartIndex() + reg->getSize() > q.getNcbits()) {
        return "condition on register out of range";
      }
    } else if (const auto& bit = cc->getControlBit(); bit.has_value()) {
      if (*bit >= q.getNcbits()) {
        return "condition on bit out of range";
      }
    } else {
      return "condition on nothing";
    }
    return wellFormed(cc->getOperation(), q, depth + 1);
  }
  std::set<qc::Qubit> used;
  for (const auto& c : op->getControls()) {
    if (c.qubit >= n) {
      return "control out of range: " + std::to_string(c.qubit);
    }
    if (!used.insert(c.qubit).second) {
      return "duplicate control";
    }
  }
  if (const auto* co = dynamic_cast<const qc::CompoundOperation*>(op); co != nullptr) {
    for (const auto& o : *co) {
      if (auto s = wellFormed(o.get(), q, depth + 1); !s.empty()) {
        return s;
      }
    }
    return "";
  }
  for (const auto t : op->getTargets()) {
    if (t >= n) {
      return "target out of range: " + std::to_string(t);
    }
    // a barrier or reset may mention a qubit twice
    if (!used.insert(t).second && op->getType() != qc::Barrier && op->getType() != qc::Reset) {
      return "duplicate qubit";
    }
  }
  if (const auto* nu = dynamic_cast<const qc::NonUnitaryOperation*>(op); nu != nullptr && op->getType() == qc::Measure) {
    if (nu->getClassics().size() != nu->getTargets().size()) {
      return "measurement with unequal numbers of qubits and bits";
    }
    for (const auto b : nu->getClassics()) {
      if (b >= q.getNcbits()) {
        return "bit out of range: " + std::to_string(b);
      }
    }
  }
  return "";
}
std::string wellFormed(const qc::QuantumComputation& q) {
  std::vector<int> cover(q.getNqubits(), 0);
  for (const auto* m : {&q.getQuantumRegisters(), &q.getAncillaRegisters()}) {
    for (const auto& [name, r] : *m) {
      if (name != r.getName()) {
        return "register stored as " + name;
      }
      for (std::size_t i = 0; i < r.getSize(); ++i) {
        if (r.getStartIndex() + i >= cover.size() || ++cover[r.getStartIndex() + i] > 1) {
          return "quantum register " + name + " out of range or overlapping";
        }
      }
    }
  }
  std::vector<int> bits(q.getNcbits(), 0);
  for (const auto& [name, r] : q.getClassicalRegisters()) {
    for (std::size_t i = 0; i < r.getSize(); ++i) {
      if (r.getStartIndex() + i >= bits.size() || ++bits[r.getStartIndex() + i] > 1) {
        return "classical register " + name + " out of range or overlapping";
      }
    }
  }
  for (const auto& [p, l] : q.initialLayout) // the physical qubits of exported circuits may have gaps
    {
    if (l >= q.getNqubits()) {
      return "initial layout out of range";
    }
  }
  for (const auto& op : q) {
    if (auto s = wellFormed(op.get(), q); !s.empty()) {
      return s;
    }
  }
  return "";
}

// ------------------------------------------------------------------------------------------------ execution
enum class Result { Accepted, Rejected };
Result run(Ctx& c, const std::string& text) {
  const auto t0 = std::chrono::steady_clock::now();
  Result res = Result::Rejected;
  try {
    qc::QuantumComputation q;
    if (c.rng.chance(0.2)) {
      std::istringstream is(text);
      q = qasm3::Importer::import(is);
    } else {
      q = qasm3::Importer::imports(text);
    }
    res = Result::Accepted;
    c.count("accepted");
    c.count("accepted_operations", q.getNops());
    const auto s = wellFormed(q);
    c.check(s.empty(), "accepted-circuit-malformed", s);
  } catch (const std::exception& e) {
    c.count("rejected");
    c.count("checks");
    std::string kind = e.what();
    const auto nl = kind.find('\n');
    c.distinct.insert(hashStr("msg" + kind.substr(0, nl)));
  } catch (...) {
    c.check(false, "exception-of-foreign-type");
  }
  const double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  if (dt > 1) {
    c.count("slower_than_1s");
  }
  return res;
}

// ------------------------------------------------------------------------------------------------ text mutation
std::vector<std::string> tokens(const std::string& s) {
  std::vector<std::string> r;
  std::size_t i = 0;
  const auto id = [](unsigned char ch) { return std::isalnum(ch) != 0 || ch == '_' || ch >= 128; };
  while (i < s.size()) {
    std::size_t j = i + 1;
    if (id(static_cast<unsigned char>(s[i]))) {
      while (j < s.size() && id(static_cast<unsigned char>(s[j]))) {
        ++j;
      }
    } else if (s[i] == '"') {
      while (j < s.size() && s[j] != '"' && s[j] != '\n') {
        ++j;
      }
      j = std::min(s.size(), j + 1);
    } else if (s.compare(i, 2, "//") == 0) {
      while (j < s.size() && s[j] != '\n') {
        ++j;
      }
    }
    r.push_back(s.substr(i, j - i));
    i = j;
  }
  return r;
}
const std::vector<std::string>& vocabulary() {
  static const std::vector<std::string> v = {
      "OPENQASM", "include", "\"qelib1.inc\"", "\"stdgates.inc\"", "\"none.inc\"", "gate", "opaque", "qubit", "qreg", "creg", "bit", "bool", "int", "uint", "float", "angle", "complex", "array", "duration", "stretch",
      "const", "readonly", "mutable", "input", "output", "let", "def", "defcal", "defcalgrammar", "cal", "extern", "box", "if", "else", "for", "in", "while", "switch", "case", "default", "break", "continue", "end", "return", "pragma", "#pragma", "#dim",
      "measure", "reset", "barrier", "delay", "durationof", "sizeof", "gphase", "inv", "pow", "ctrl", "negctrl", "inv @", "ctrl @", "negctrl @", "ctrl(2) @", "pow(2) @", "negctrl(0) @", "ctrl(-1) @", "true", "false", "im", "pi", "tau", "euler", "π", "τ", "ℇ", "sin", "cos", "tan", "exp", "ln", "sqrt", "arcsin", "mod", "popcount", "void",
      "x", "cx", "ccx", "swap", "rx", "u3", "U", "CX", "u2", "p", "mcx", "mcx_vchain", "mcx_recursive", "mcphase", "mcx_gray", "rzz", "cp", "id", "xx_plus_yy", "ecr", "iswap", "peres", "c3x", "cccx", "ctrl_x", "cu3", "snapshot", "teleport",
      "q", "c", "a", "b", "q[0]", "q[1]", "c[0]", "c[1]", "q[0:1]", "q[{0,1}]", "$0", "$1", "$12", "$", "q[-1]", "q[9]", "q[]", "c[]", "q[0][1]", "q[0,1]",
      "(", ")", "[", "]", "{", "}", ",", ";", ":", ".", "->", "=", "==", "!=", "<", ">", "<=", ">=", "+", "-", "*", "/", "%", "**", "^", "++", "+=", "-=", "*=", "/=", "&=", "|=", "~=", "^=", "<<=", ">>=", "%=", "**=", "&", "|", "~", "!", "&&", "||", "<<", ">>", "@", "\"", "'", "\\", "?", "#", "$",
      "0", "1", "2", "3", "0.5", ".5", "1e3", "1e", "1e+", "1.5.2", "0x", "0xF", "0b", "0b101", "0b2", "0o7", "0o9", "1_0", "_1", "1__0", "9999", "18446744073709551615", "18446744073709551616", "9223372036854775808", "1e999", "10ns", "10us", "5dt", "3im", "\"0101\"", "'01'", "nan", "inf", "true",
      "//", "/*", "*/", "// i 0 1", "// o 1 0", "// i", "// o x", "// i 99999999999999999999", "//i 1 0\n", "// o 0 1 2 3 4\n", "\n", "\t", " ", "\r", std::string(1, '\0'), "\xff", "\xc3", "\xef\xbb\xbf", "\x01"};
  return v;
}
// caps what the program asks for: sizes of registers, indices of hardware qubits and counts of controls stay small, so that
// time and memory are not simply what the program demands
std::string capped(const std::string& s) {
  bool large = false;
  {
    // large numbers, or operators that produce them, anywhere
    int run = 0;
    for (std::size_t i = 0; i < s.size(); ++i) {
      const auto ch = static_cast<unsigned char>(s[i]);
      if (std::isalnum(ch) != 0 || ch == '_') {
        run = std::isdigit(ch) != 0 || run > 0 ? run + 1 : 0;
      } else {
        run = 0;
      }
      large = large || run > 4;
    }
    large = large || s.find('*') != std::string::npos || s.find('^') != std::string::npos || s.find("<<") != std::string::npos || s.find('e') != std::string::npos;
  }
  std::string r;
  for (std::size_t i = 0; i < s.size(); ++i) {
    r += s[i];
    if (s[i] == '[') {
      // the bracket's content
      auto e = i + 1;
      while (e < s.size() && s[e] != ']' && s[e] != ';' && s[e] != '{') {
        if (s.compare(e, 2, "/*") == 0) {
          const auto z = s.find("*/", e + 2);
          e = z == std::string::npos ? s.size() : z + 2;
        } else if (s.compare(e, 2, "//") == 0) {
          e = std::min(s.find('\n', e), s.size());
        } else {
          ++e;
        }
      }
      auto in = s.substr(i + 1, e - i - 1);
      for (std::size_t a = 0; (a = in.find("/*")) != std::string::npos;) {
        const auto z = in.find("*/", a);
        in.erase(a, z == std::string::npos ? z : z + 2 - a);
      }
      for (std::size_t a = 0; (a = in.find("//")) != std::string::npos;) {
        const auto z = in.find('\n', a);
        in.erase(a, z == std::string::npos ? z : z - a);
      }
      int digits = 0;
      bool bad = in.find('*') != std::string::npos || in.find('^') != std::string::npos || in.find('<') != std::string::npos;
      bool name = false;
      for (const unsigned char ch : in) {
        digits += std::isdigit(ch) != 0 ? 1 : 0;
        name = name || std::isalpha(ch) != 0 || ch >= 128;
      }
      if (digits > 3 || bad || (name && large)) {
        r += digits > 0 ? "2" : "";
        i = e - 1;
      }
    } else if (s[i] == '$') {
      int k = 0;
      while (i + 1 < s.size() && (std::isalnum(static_cast<unsigned char>(s[i + 1])) != 0 || s[i + 1] == '_')) {
        ++i;
        if (++k <= 2) {
          r += s[i];
        }
      }
    }
  }
  return r;
}
std::string base(Ctx& c) {
  ProgGen g(c.rng, 5, 8, c.rng.chance(0.6));
  g.generate();
  return g.p.text;
}
std::string mutate(Rng& r, std::string s, const std::string& other) {
  const auto k = r.chance(0.6) ? 1 : r.range(1, 5);
  for (std::size_t m = 0; m < k; ++m) {
    if (r.chance(0.35)) { // bytes
      if (s.empty()) {
        s = "x";
      }
      const auto i = r.below(s.size());
      switch (r.below(6)) {
      case 0: s.erase(i, 1 + r.below(4)); break;
      case 1: s.insert(i, 1, static_cast<char>(r.below(256))); break;
      case 2: s[i] = static_cast<char>(r.below(256)); break;
      case 3: s = s.substr(0, i); break;
      case 4: s[i] = static_cast<char>(s[i] ^ (1 << r.below(8))); break;
      default: s.insert(i, s.substr(i, 1 + r.below(20)));
      }
      continue;
    }
    auto t = tokens(s);
    if (t.empty()) {
      t.push_back("q");
    }
    const auto i = r.below(t.size());
    switch (r.below(9)) {
    case 0: t.erase(t.begin() + static_cast<long>(i)); break;
    case 1: t.insert(t.begin() + static_cast<long>(i), r.pick(vocabulary())); break;
    case 2: t[i] = r.pick(vocabulary()); break;
    case 3: t[i] = t[r.below(t.size())]; break;
    case 4: std::swap(t[i], t[r.below(t.size())]); break;
    case 5: { // move or copy a stretch
      const auto n = std::min<std::size_t>(1 + r.below(12), t.size() - i);
      std::vector<std::string> x(t.begin() + static_cast<long>(i), t.begin() + static_cast<long>(i + n));
      if (r.chance(0.5)) {
        t.erase(t.begin() + static_cast<long>(i), t.begin() + static_cast<long>(i + n));
      }
      t.insert(t.begin() + static_cast<long>(r.below(t.size() + 1)), x.begin(), x.end());
      break;
    }
    case 6: { // from another program
      const auto o = tokens(other);
      if (!o.empty()) {
        const auto a = r.below(o.size());
        const auto n = std::min<std::size_t>(1 + r.below(30), o.size() - a);
        t.insert(t.begin() + static_cast<long>(i), o.begin() + static_cast<long>(a), o.begin() + static_cast<long>(a + n));
      }
      break;
    }
    case 7: { // identifiers of the program in other places
      std::vector<std::string> ids;
      for (const auto& x : t) {
        if (std::isalpha(static_cast<unsigned char>(x[0])) != 0) {
          ids.push_back(x);
        }
      }
      if (!ids.empty()) {
        t[i] = r.pick(ids);
      }
      break;
    }
    default: t.insert(t.begin() + static_cast<long>(i), " " + r.pick(vocabulary()) + " " + r.pick(vocabulary()) + " ");
    }
    s.clear();
    for (const auto& x : t) {
      s += x;
    }
  }
  return s;
}
void mutants(Ctx& c) {
  const auto a = base(c);
  const auto b = base(c);
  const auto s = capped(mutate(c.rng, a, b));
  announce(c, s);
  c.fingerprint = s;
  run(c, s);
}
void soup(Ctx& c) {
  auto& r = c.rng;
  std::string s;
  if (r.chance(0.5)) {
    s += r.chance(0.5) ? "OPENQASM 3.0;\nqubit[2] q;\nbit[2] c;\n" : "OPENQASM 2.0;\ninclude \"qelib1.inc\";\nqreg q[2];\ncreg c[2];\n";
  }
  const auto n = r.range(1, 25);
  for (std::size_t i = 0; i < n; ++i) {
    s += r.pick(vocabulary());
    if (r.chance(0.8)) {
      s += " ";
    }
    if (r.chance(0.15)) {
      s += ";\n";
    }
  }
  s = capped(s);
  announce(c, s);
  c.fingerprint = s;
  run(c, s);
}
// statements of the grammar with random (mostly ill-typed) expressions in every place
struct Wild {
  Rng& r;
  double hostile = 1; // share of places that are filled without regard to types
  int budget = 60;
  std::string e(int d) {
    if (!r.chance(hostile)) {
      static const std::vector<std::string> mild = {"0.5", "pi", "f", "k", "2*f", "sin(f)", "-pi/2", "k**2", "u+1", "1.5e0"};
      return r.pick(mild);
    }
    static const std::vector<std::string> leaf = {"0", "1", "2", "-1", "0.5", "true", "false", "pi", "q", "c", "q[0]", "c[0]", "k", "u", "f", "w", "nope", "i", "\"01\"", "9223372036854775807", "18446744073709551615", "1e300", "0x10", "c[1]", "g", "x", "10ns"};
    static const std::vector<std::string> bin = {"+", "-", "*", "/", "%", "**", "==", "!=", "<", ">", "<=", ">=", "&&", "||", "&", "|", "^", "<<", ">>"};
    static const std::vector<std::string> un = {"-", "~", "!", "sin", "cos", "tan", "exp", "ln", "sqrt", "durationof", "popcount", "arccos", "sizeof", "int", "float", "bit"};
    if (d <= 0 || --budget < 0 || r.chance(0.3)) {
      return r.pick(leaf);
    }
    switch (r.below(6)) {
    case 0: return "(" + e(d - 1) + ")";
    case 1: {
      const auto& u = r.pick(un);
      return u + (std::isalpha(static_cast<unsigned char>(u[0])) != 0 ? "(" + e(d - 1) + ")" : e(d - 1));
    }
    case 2: return r.pick(std::vector<std::string>{"q", "c", "k", "nope", "sin"}) + "[" + (r.chance(0.8) ? r.pick(std::vector<std::string>{"0", "1", "u", "q", "0.5", "true", "-1", "0:1", "0,1", "{0,1}", "", "nope", "u-1", "u/0", "u%0", "c[0]", "c"}) : std::string("9")) + "]";
    default: return e(d - 1) + " " + r.pick(bin) + " " + e(d - 1);
    }
  }
  std::string type() {
    static const std::vector<std::string> t = {"int", "uint", "float", "bool", "bit", "qubit", "angle", "complex", "duration", "creg", "qreg", "int[8]", "uint[4]", "float[32]", "float[64]", "bit[2]", "qubit[2]", "angle[8]", "bool[2]", "int[0]", "uint[0]", "float[0]", "int[u]", "bit[u]", "bit[nope]", "int[0.5]", "bit[true]", "int[-1]", "array[int,2]", "complex[float]"};
    return r.pick(t);
  }
  std::string operand() {
    if (!r.chance(hostile)) {
      return r.chance(0.2) ? "q" : r.chance(0.5) ? "q[0]" : "q[u]";
    }
    static const std::vector<std::string> o = {"q", "q[0]", "q[1]", "q[2]", "q[u]", "c", "c[0]", "$0", "$1", "nope", "q[u-1]", "q[u-2]", "q[0.5]", "q[true]", "k", "q[-1]", "q[]", "z", "q[1/0]", "q[w]", "x"};
    return r.pick(o);
  }
  std::string operands() {
    std::string s;
    const auto n = r.below(4);
    for (std::size_t i = 0; i <= n; ++i) {
      s += (i > 0 ? "," : "") + operand();
    }
    return s;
  }
  std::string call() {
    static const std::vector<std::string> m = {"inv @ ", "ctrl @ ", "negctrl @ ", "ctrl(2) @ ", "ctrl(u) @ ", "ctrl(0) @ ", "pow(2) @ ", "pow(0.5) @ ", "ctrl(nope) @ ", "ctrl(-1) @ ", "ctrl(18446744073709551615) @ ", "ctrl(9223372036854775807) @ ", "ctrl(0.5) @ ", "ctrl(q) @ ", "negctrl(k) @ ", "ctrl(1/0) @ ", "inv"};
    static const std::vector<std::string> g = {"x", "cx", "rx", "h", "swap", "u3", "U", "gphase", "mcx", "mcphase", "mcx_vchain", "mcx_recursive", "rzz", "g", "g2", "nope", "barrier", "measure", "reset", "ccx", "id", "q", "sin", "p"};
    std::string s;
    while (r.chance(0.3)) {
      s += r.pick(m);
    }
    s += r.pick(g);
    if (r.chance(0.4)) {
      s += "(";
      const auto n = r.below(4);
      for (std::size_t i = 0; i < n; ++i) {
        s += (i > 0 ? "," : "") + e(3);
      }
      s += ")";
    }
    return s + " " + (r.chance(0.97) ? operands() : "") + ";\n";
  }
  std::string mildStatement() {
    const auto a = r.below(2);
    const auto q0 = "q[" + std::to_string(a) + "]";
    const auto q1 = "q[" + std::to_string(1 - a) + "]";
    switch (r.below(10)) {
    case 0: return "x " + operand() + ";\n";
    case 1: return "ctrl @ rx(" + e(2) + ") " + q0 + "," + operand() + ";\n";
    case 2: return "cx " + q0 + "," + (r.chance(hostile) ? operand() : q1) + ";\n";
    case 3: return "measure " + operand() + " -> " + (r.chance(0.5) ? "c" : "c[0]") + ";\n";
    case 4: return "c = measure q;\n";
    case 5: return "if (c" + std::string(r.chance(0.5) ? "[0]" : " == 1") + ") { x " + operand() + "; }\n";
    case 6: return "rx(" + e(2) + ") " + operand() + ";\n";
    case 7: return "if (c[1]) U(" + e(2) + "," + e(1) + "," + e(1) + ") " + q0 + "; else " + mildStatement();
    case 8: return "reset " + operand() + "; barrier " + operand() + ";\n";
    default: return "mcx " + q0 + "," + q1 + ";\n";
    }
  }
  std::string statement(int d) {
    if (!r.chance(hostile)) {
      return mildStatement();
    }
    static const std::vector<std::string> asg = {"=", "+=", "-=", "*=", "/=", "&=", "|=", "~=", "^=", "<<=", ">>=", "%=", "**="};
    switch (r.below(d > 0 ? 16 : 12)) {
    case 0:
    case 1: return call();
    case 2: return std::string(r.chance(0.5) ? "const " : "") + type() + " " + r.pick(std::vector<std::string>{"z", "w", "k", "y", "q", "x", "g"}) + (r.chance(0.7) ? " = " + e(3) : "") + ";\n";
    case 3: return r.pick(std::vector<std::string>{"k", "c", "c[0]", "q", "u", "nope", "f", "b1", "c[5]", "x"}) + " " + r.pick(asg) + " " + e(3) + ";\n";
    case 4: return r.pick(std::vector<std::string>{"c", "c[0]", "q", "b1", "nope", "c[u]"}) + " = measure " + operand() + ";\n";
    case 5: return "measure " + operand() + (r.chance(0.8) ? " -> " + r.pick(std::vector<std::string>{"c", "c[0]", "q", "b1", "nope", "c[2]", "k"}) : "") + ";\n";
    case 6: return "reset " + operand() + ";\n";
    case 7: return "barrier " + (r.chance(0.9) ? operands() : "") + ";\n";
    case 8: return type() + " y = measure " + operand() + ";\n";
    case 9: return std::string("gate ") + r.pick(std::vector<std::string>{"g", "g2", "x", "cx", "h2", "q", "sin"}) + (r.chance(0.5) ? r.pick(std::vector<std::string>{"(a)", "()", "(a,b)", "(a,a)", "(q)", "(1)"}) : "") + r.pick(std::vector<std::string>{" a ", " a,b ", " a,a ", " q ", " ", " a[0] "}) + "{ " +
                   r.pick(std::vector<std::string>{"x a;", "rx(a) a;", "cx a,b;", "g a;", "g2 a,b;", "barrier a;", "reset a;", "x q[0];", "x $0;", "", "measure a;", "rx(u) a;", "x a[0];", "ctrl @ x a,b;", "if (c) x a;", "U(a,b,0) a;", "int z;", "inv @ g2 a,b;", "gphase(a) a;"}) +
                   " }\n";
    case 10: return r.pick(std::vector<std::string>{"opaque g(a) b;\n", "opaque x a;\n", "opaque h2 a,b;\n", "include \"stdgates.inc\";\n", "include \"nope.inc\";\n", "OPENQASM 3.0;\n", "OPENQASM 2.0;\n", "OPENQASM 9;\n", "// i 1 0\n", "// o 0 1\n", "// i 0\n", "// o 5 6 7\n", "qreg q2[2];\n", "creg c2[2];\n", "qreg e[0];\n", "qubit[0] e;\n", "creg ce[0];\n", "bit b1;\n", ";\n", "{ }\n", "end;\n", "return 1;\n", "break;\n", "let a = q;\n", "qreg q[2];\n", "input int z;\n", "output bit z;\n", "$0;\n", "x;\n", "pragma foo\n"});
    case 11: return e(3) + ";\n";
    default: {
      std::string s = r.pick(std::vector<std::string>{"if (", "if (", "if (", "while (", "if "}) + e(2) + ") ";
      const bool braces = r.chance(0.7);
      s += braces ? "{ " : "";
      const auto n = braces ? r.below(3) : 1;
      for (std::size_t i = 0; i < n; ++i) {
        s += statement(d - 1);
      }
      s += braces ? " }" : "";
      if (r.chance(0.4)) {
        s += " else " + statement(d - 1);
      }
      return s + "\n";
    }
    }
  }
};
void wild(Ctx& c) {
  auto& r = c.rng;
  Wild w{r, r.pick(std::vector<double>{0.05, 0.1, 0.2, 0.5, 1.0})};
  std::string s = r.chance(0.7) ? "OPENQASM 3.0;\ninclude \"stdgates.inc\";\n" : r.chance(0.5) ? "OPENQASM 2.0;\ninclude \"qelib1.inc\";\n" : "";
  if (r.chance(0.95)) {
    s += "qubit[2] q;\nbit[2] c;\n";
  }
  if (r.chance(0.8)) {
    s += "const uint u = 1;\nconst int k = 2;\nconst float f = 0.5;\n";
  }
  if (r.chance(0.5)) {
    s += "gate g(a) b { rx(a) b; }\ngate g2 a,b { g(pi) a; cx a,b; }\n";
  }
  const auto n = r.range(1, 4);
  for (std::size_t i = 0; i < n; ++i) {
    s += w.statement(2);
  }
  announce(c, s);
  c.fingerprint = s;
  run(c, s);
}

// ------------------------------------------------------------------------------------------------ invalid programs
void invalid(Ctx& c) {
  auto& r = c.rng;
  ProgGen g(r, 5, 6, true);
  g.generate();
  const auto& q = g.p.q.front();
  const Reg* b = g.p.c.empty() ? nullptr : &g.p.c.front();
  const bool v3 = !g.v2;
  std::vector<std::pair<std::string, std::string>> w;
  const auto add = [&](const std::string& key, const std::string& text) { w.emplace_back(key, text); };
  // an operand of one qubit
  const auto one = [&](const Reg& reg) { return reg.scalar ? reg.name : reg.name + "[" + std::to_string(r.below(reg.size)) + "]"; };
  const auto q0 = one(q);
  const auto beyond = std::to_string(q.size + r.below(3));
  add("undeclared-register", "x nosuchreg[0];");
  add("undeclared-register", "cx " + q0 + ",nosuchreg;");
  add("undeclared-register", "barrier nosuchreg;");
  add("undeclared-register", "reset nosuchreg;");
  add("undeclared-gate", "nosuchgate " + q0 + ";");
  add("undeclared-gate", "nosuchgate(0.5) " + q0 + ";");
  add("undeclared-constant", "rx(nosuchconst) " + q0 + ";");
  add("undeclared-constant", "rx(2*nosuchconst+1) " + q0 + ";");
  add("index-out-of-range", "x " + q.name + "[" + beyond + "];");
  add("index-out-of-range", "reset " + q.name + "[" + beyond + "];");
  add("index-out-of-range", "barrier " + q.name + "[" + beyond + "];");
  add("negative-index", "x " + q.name + "[-1];");
  add("duplicate-qubits", "cx " + q0 + "," + q0 + ";");
  add("duplicate-qubits", "swap " + q0 + "," + q0 + ";");
  add("duplicate-qubits", "rzz(0.5) " + q0 + "," + q0 + ";");
  add("missing-parameter", "rx " + q0 + ";");
  add("missing-parameter", "u3(0.1,0.2) " + q0 + ";");
  add("too-many-parameters", "x(0.5) " + q0 + ";");
  add("too-many-parameters", "rz(0.5,0.1) " + q0 + ";");
  add("too-few-qubits", "cx " + q0 + ";");
  add("syntax", "x " + q0);
  add("syntax", "x ," + q0 + ";");
  add("syntax", "rx(0.5 " + q0 + ";");
  add("syntax", "x " + q.name + "[0;");
  add("syntax", "gate syntaxg a { x a;");
  add("syntax", "rx(1+) " + q0 + ";");
  add("syntax", "/* unterminated");
  add("syntax", "include \"unterminated;");
  add("syntax", "x " + q0 + " " + q0 + ";");
  add("no-such-file", "include \"no_such_file_vf.inc\";");
  add("redeclaration", (v3 ? "qubit " + q.name : "qreg " + q.name + "[1]") + ";");
  add("redeclaration", "qreg " + q.name + "[2];");
  add("redeclaration", "creg " + q.name + "[1];");
  add("redeclaration", "gate vfg a { x a; } gate vfg a { y a; }");
  add("duplicate-formal", "gate vfg a,a { x a; } ");
  add("duplicate-formal", "gate vfg(s,s) a { rx(s) a; } ");
  add("recursive-gate", "gate vfg a { vfg a; } vfg " + q0 + ";");
  add("unknown-in-gate-body", "gate vfg a { x zz; } vfg " + q0 + ";");
  add("unknown-in-gate-body", "gate vfg a { rx(zz) a; } vfg " + q0 + ";");
  add("unknown-in-gate-body", "gate vfg a { nosuchgate a; } vfg " + q0 + ";");
  add("own-gate-arity", "gate vfg(s) a { rx(s) a; } vfg " + q0 + ";");
  add("own-gate-arity", "gate vfg a { x a; } vfg(0.5) " + q0 + ";");
  add("own-gate-arity", "gate vfg a,b { cx a,b; } vfg " + q0 + ";");
  if (g.p.circ.n >= 2) {
    std::vector<std::string> flat;
    for (const auto& reg : g.p.q) {
      for (unsigned i = 0; i < reg.size; ++i) {
        flat.push_back(reg.scalar ? reg.name : reg.name + "[" + std::to_string(i) + "]");
      }
    }
    r.shuffle(flat);
    add("too-many-qubits", "x " + flat[0] + "," + flat[1] + ";");
    add("own-gate-arity", "gate vfg a { x a; } vfg " + flat[0] + "," + flat[1] + ";");
    add("duplicate-qubits", "gate vfg a,b { cx a,b; } vfg " + flat[0] + "," + flat[0] + ";");
    if (v3) {
      add("duplicate-qubits", "ctrl @ x " + flat[0] + "," + flat[0] + ";");
      add("duplicate-qubits", "ctrl @ cx " + flat[0] + "," + flat[1] + "," + flat[0] + ";");
      add("duplicate-qubits", "negctrl @ ctrl @ x " + flat[0] + "," + flat[0] + "," + flat[1] + ";");
      add("too-few-qubits", "ctrl(2) @ x " + flat[0] + "," + flat[1] + ";");
      add("too-few-qubits", "ctrl @ ctrl @ x " + flat[0] + "," + flat[1] + ";");
    }
  }
  for (const auto& x : g.p.q) {
    for (const auto& y : g.p.q) {
      if (x.size > 1 && y.size > 1 && x.size != y.size && !x.scalar && !y.scalar) {
        add("broadcast-size", "cx " + x.name + "," + y.name + ";");
      }
      if (x.size > 1 && !x.scalar && &x == &y) {
        add("duplicate-qubits", "cx " + x.name + "," + x.name + ";");
        add("duplicate-qubits", "cx " + x.name + "," + x.name + "[0];");
      }
    }
  }
  if (v3) {
    add("too-few-qubits", "ctrl @ x " + q0 + ";");
    add("too-few-qubits", "ctrl(3) @ x " + q0 + ";");
    add("type", "x " + q.name + "[0.5];");
    add("type", "const uint vfn = 0.5;");
    add("type", "const int[8] vfn = 1.5;");
    add("type", "qubit[1.5] vfq;");
    add("type", "qubit[pi] vfq;");
    add("type", "bit[0.5] vfb;");
    add("type", "const bool vfn = " + q.name + ";");
    add("type", "rx(" + q.name + ") " + q0 + ";");
    add("constant-without-value", "const int vfn;");
    add("undeclared-constant", "const int vfn = nosuchconst;");
    add("undeclared-constant", "const int vfn = vfn + 1;");
    add("undeclared-constant", "qubit[nosuchconst] vfq;");
    add("redeclaration", "const int vfn = 1; const int vfn = 2;");
    add("redeclaration", "const float vfn = 1.5; bit vfn;");
    add("redeclaration", "qubit vfn; const float vfn = 1.5;");
    add("assignment-to-constant", "const int vfn = 1; vfn = 2;");
    add("division-by-zero", "const int vfn = 1/0;");
    add("division-by-zero", "const int vfn = 1%0;");
    add("condition-type", "if (" + q0 + ") x " + q0 + ";");
    add("condition-type", "if (nosuch) x " + q0 + ";");
    add("condition-type", "if (nosuch == 1) { x " + q0 + "; }");
  }
  if (b != nullptr) {
    const auto b0 = one(*b);
    add("measure-into-qubit", "measure " + q0 + " -> " + q0 + ";");
    add("measure-of-bit", "measure " + b0 + " -> " + b0 + ";");
    add("gate-on-bit", "x " + b0 + ";");
    add("gate-on-bit", "cx " + q0 + "," + b0 + ";");
    add("reset-of-bit", "reset " + b0 + ";");
    add("barrier-on-bit", "barrier " + b0 + ";");
    add("undeclared-register", "measure nosuchreg[0] -> " + b0 + ";");
    add("undeclared-register", "measure " + q0 + " -> nosuchreg[0];");
    add("index-out-of-range", "measure " + q0 + " -> " + b->name + "[" + std::to_string(b->size + r.below(3)) + "];");
    add("index-out-of-range", "measure " + q.name + "[" + beyond + "] -> " + b0 + ";");
    add("redeclaration", "creg " + b->name + "[1];");
    add("redeclaration", "qreg " + b->name + "[1];");
    for (const auto& x : g.p.q) {
      for (const auto& y : g.p.c) {
        if (x.size != y.size) {
          add("measure-size", "measure " + x.name + " -> " + y.name + ";");
        }
      }
    }
    if (v3) {
      add("condition-index-out-of-range", "if (" + b->name + "[" + std::to_string(b->size + r.below(2)) + "]) x " + q0 + ";");
      add("undeclared-gate", "if (" + b0 + ") nosuchgate " + q0 + ";");
      add("undeclared-gate", "if (" + b0 + ") x " + q0 + "; else nosuchgate " + q0 + ";");
      add("undeclared-register", "if (" + b0 + ") { x nosuchreg; }");
      add("index-out-of-range", "if (" + b0 + ") { x " + q.name + "[" + beyond + "]; }");
      add("duplicate-qubits", "if (" + b0 + ") { cx " + q0 + "," + q0 + "; }");
      add("redeclaration", "const int " + b->name + " = 1;");
      add("type", "const int vfn = " + b->name + ";");
    }
  }
  // an unterminated comment at the end of the program would swallow what follows
  const auto& [key, text] = r.pick(w);
  const auto s = g.p.text + "\n" + text + "\n";
  announce(c, s);
  c.fingerprint = s;
  c.count("defect:" + key);
  if (run(c, s) == Result::Accepted) {
    c.check(false, "invalid-program-accepted:" + key, text);
  } else {
    c.count("checks");
  }
}

// ------------------------------------------------------------------------------------------------ depth and length
std::string rep(const std::string& s, std::size_t n) {
  std::string r;
  r.reserve(s.size() * n);
  for (std::size_t i = 0; i < n; ++i) {
    r += s;
  }
  return r;
}
void extreme(Ctx& c) {
  auto& r = c.rng;
  static const std::vector<std::size_t> ns = {1, 2, 10, 50, 63, 64, 65, 99, 100, 101, 127, 128, 200, 255, 256, 257, 500, 511, 512, 1000, 1024, 2000, 5000, 10000, 30000};
  const auto n = r.pick(ns);
  const std::string h = r.chance(0.5) ? "OPENQASM 3.0;\ninclude \"stdgates.inc\";\nqubit[2] q;\nbit[2] c;\n" : "OPENQASM 2.0;\ninclude \"qelib1.inc\";\nqreg q[2];\ncreg c[2];\n";
  std::string s = h;
  const auto kind = r.below(26);
  switch (kind) {
  case 0: s += "rx(" + rep("(", n) + "1" + rep(")", n) + ") q[0];"; break;
  case 1: s += "rx(" + rep("-", n) + "1) q[0];"; break;
  case 2: s += "rx(" + rep("1+", n) + "1) q[0];"; break;
  case 3: s += "rx(" + rep("1**", n) + "1) q[0];"; break;
  case 4: s += "rx(" + rep("sin(", n) + "1" + rep(")", n) + ") q[0];"; break;
  case 5: s += rep("inv @ ", n) + "x q[0];"; break;
  case 6: s += rep("ctrl @ ", n) + "x q[0],q[1];"; break;
  case 7: s += rep("if (c[0]) ", n) + "x q[0];"; break;
  case 8: s += rep("if (c[0]) { ", n) + "x q[0];" + rep("}", n); break;
  case 9: s += rep("if (c[0]) x q[0]; else ", n) + "x q[0];"; break;
  case 10: s += rep("// comment\n", n) + "x q[0];"; break;
  case 11: s += rep("/* comment */", n) + "x q[0];"; break;
  case 12: s += rep("//", 1) + rep("i 0 ", n) + "\nx q[0];"; break;
  case 13: s += "// " + rep("x", n) + "\nx q[0];"; break;
  case 14: s += rep("x q[0];", std::min<std::size_t>(n, 5000)); break;
  case 15: s += "x " + rep("q[0],", n) + "q[1];"; break;
  case 16: s += "rx(" + rep("1,", n) + "1) q[0];"; break;
  case 17: s += "gate g(" + rep("a,", n) + "a) b { x b; }"; break;
  case 18: {
    s += "gate g0 a { x a; }\n";
    const auto m = std::min<std::size_t>(n, 2000);
    for (std::size_t i = 1; i <= m; ++i) {
      s += "gate g" + std::to_string(i) + " a { g" + std::to_string(i - 1) + " a; }\n";
    }
    s += "g" + std::to_string(m) + " q[0];";
    break;
  }
  case 19: s += "rx(" + rep("9", n) + ") q[0];"; break;
  case 20: s += "rx(0." + rep("9", n) + ") q[0];"; break;
  case 21: s += "rx(1e" + rep("9", n) + ") q[0];"; break;
  case 22: s += rep("a", n) + " q[0];"; break;
  case 23: s += rep(r.pick(vocabulary()), std::min<std::size_t>(n, 3000)); break;
  case 24: s += "x q" + rep("[0]", n) + ";"; break;
  default: s += rep("{", n) + "x q[0];" + rep("}", n);
  }
  s = kind == 23 ? capped(s) : s;
  if (r.chance(0.3)) {
    s = s.substr(0, h.size() + r.below(s.size() - h.size() + 1));
  }
  announce(c, "kind " + std::to_string(kind) + " n " + std::to_string(n) + ": " + s);
  c.fingerprint = s;
  run(c, s);
}
// texts that once crashed an importer
void regressions(Ctx& c) {
  const std::string h3 = "OPENQASM 3.0;\ninclude \"stdgates.inc\";\nqubit[2] q;\nbit[2] c;\n";
  const std::string h2 = "OPENQASM 2.0;\ninclude \"qelib1.inc\";\nqreg q[2];\ncreg c[2];\n";
  const std::vector<std::string> all = {
      "", " ", "\n", ";", "\"", "\"abc", "include \"", "/*", "/**", "//", "OPENQASM", "OPENQASM 3", "OPENQASM 3.", "OPENQASM ;", "OPENQASM 1e3;", std::string("x\0y", 3), "\xff\xfe", "\xef\xbb\xbfOPENQASM 3.0;",
      h3 + "rx(1/0) q[0];", h3 + "rx(1%0) q[0];", h3 + "const int a = 0**-1;", h3 + "const int a = -9223372036854775808 / -1;", h3 + "const int a = -9223372036854775807 - 1; const int b = a / -1;", h3 + "const int a = -9223372036854775807 - 1; const int b = a % -1;", h3 + "const int a = -9223372036854775807 - 1; const int b = -a;",
      h3 + "x q[];", h3 + "qubit[0] e; x e;", h3 + "qubit[0] e; cx q,e;", h3 + "qubit[0] e; barrier e;", h3 + "qubit[0] e; reset e;", h3 + "bit[0] e; measure q -> e;", h3 + "qubit[0] e; bit[0] f; measure e -> f;", h3 + "qubit[0] e; bit[0] f; f = measure e;", h3 + "rx(~foo) q[0];", h3 + "rx(-foo) q[0];", h3 + "rx(!foo) q[0];", h3 + "foo = 1;", h3 + "foo[0] = 1;", h3 + "foo[0] = measure q[0];", h3 + "foo = measure q[0];", h3 + "rx(foo[0]) q[0];",
      h3 + "gate g a { g a; } g q[0];", h3 + "gate g a { h1 a; } gate h1 a { g a; } g q[0];", h2 + "gate g a { g a; } g q[0];", h3 + "mcx_vchain q[0],q[1];", h3 + "mcx_vchain q[0];", h3 + "mcx q[0];", h3 + "mcphase(1) q[0];", h3 + "mcx_recursive q[0];", h3 + "ctrl(2) @ mcx q[0],q[1];", h3 + "inv @ mcx;", h3 + "mcx_gray;",
      h3 + "rx(18446744073709551616) q[0];", h3 + "rx(0xFFFFFFFFFFFFFFFFF) q[0];", h3 + "x $99999999999999999999;", h3 + "rx(1e999) q[0];", h3 + "const int a = 9223372036854775807 + 1;", h3 + "const uint a = 18446744073709551615 * 2;", h3 + "const uint a = 1 - 2;", h3 + "const int a = 1 << 64;", h3 + "const int a = 1 << -1;", h3 + "const int a = 1 >> 64;", h3 + "const uint a = 2 ** 64;", h3 + "const uint a = 2 ** 18446744073709551615;",
      h3 + "if (c == 99999999999999999999) x q[0];", h3 + "if (c == -1) x q[0];", h3 + "if (c == 1.5) x q[0];", h3 + "if (c < true) x q[0];", h3 + "if (q == 1) x q[0];", h3 + "if (c) x q[0];", h3 + "if (3 < c) x q[0];", h3 + "if (c[0] == 1) x q[0];", h3 + "if (c[5] == 1) x q[0];", h3 + "if (c[]) x q[0];", h3 + "if (1) x q[0];", h3 + "if () x q[0];", h3 + "if (c[0] && c[1]) x q[0];", h3 + "if (!c[0]) x q[0];", h3 + "if (c[0]) { }", h3 + "if (c[0]) { } else { }", h3 + "if (c[0]) if (c[1]) x q[0];", h3 + "if (c[0]) measure q[0] -> c[0];", h3 + "if (c[0]) reset q[0];", h3 + "if (c[0]) barrier q;",
      h3 + "include \"stdgates.inc\"; include \"stdgates.inc\";", h3 + "include \"", h3 + "include \"\";", h3 + "include \".\";", h3 + "include;", h3 + "gate g() q {}", h3 + "gate g {}", h3 + "gate {}", h3 + "gate", h3 + "opaque", h3 + "opaque g;", h3 + "ctrl @", h3 + "ctrl", h3 + "ctrl(", h3 + "ctrl(1", h3 + "inv @ ;", h3 + "@", h3 + "$", h3 + "q", h3 + "q[", h3 + "q =", h3 + "c =", h3 + "c = measure", h3 + "measure", h3 + "measure q ->", h3 + "bit", h3 + "bit[", h3 + "bit[2", h3 + "const", h3 + "const int", h3 + "const int a", h3 + "const int a =", h3 + "int[", h3 + "creg c2", h3 + "qreg", h3 + "if", h3 + "if (", h3 + "if (c", h3 + "if (c[0]", h3 + "if (c[0])", h3 + "if (c[0]) {", h3 + "if (c[0]) x q[0]; else", h3 + "barrier", h3 + "barrier;", h3 + "reset", h3 + "reset;", h3 + "rx(", h3 + "rx(1", h3 + "rx(1)", h3 + "rx() q[0];", h3 + "rx(,) q[0];",
      h3 + "gphase(1);", h3 + "ctrl @ gphase(1) q[0];", h3 + "inv @ gphase(1);", h3 + "gphase;", h3 + "gphase(1) q;", h3 + "ctrl(2) @ gphase(1) q[0],q[1];", h3 + "gate g a { gphase(1); } g q[0];", h3 + "gate g a { gphase(1); } ctrl @ g q[0],q[1];", h3 + "x q[18446744073709551615];", h3 + "x q[-1];", h3 + "x q[0.0];", h3 + "ctrl(18446744073709551615) @ ctrl @ x q[0], q[1];", h3 + "ctrl @ ctrl(18446744073709551615) @ x q[0], q[1];", h3 + "ctrl(9223372036854775807) @ ctrl(9223372036854775807) @ ctrl(2) @ x q[0], q[1];",
      "// i 0 1\n", "// i 18446744073709551616\n" + h2, "// o 18446744073709551616\n" + h2, "// i 7 8 9\n" + h2, "// o 7 8 9\n" + h2, "// i\n" + h2, "// i 0 0\n" + h2, "// o 0 0\n" + h2, "// i 0 1 2 3 4 5\n" + h2, "// o 1\n" + h2, "// i -1 0\n" + h2, "i 0 1\n" + h2, "qubit q; cx q, q;", "qubit[2] q; cx q, q;", "x $0; x $0;", "x $1; qubit[2] q;", "qubit[2] q; x $5;", "U(1,2,3) $0;", "creg c[2]; if (c==1) x $0;",
  };
  const auto& s = all[c.local % all.size()];
  announce(c, s);
  c.fingerprint = s;
  run(c, s);
}
} // namespace

int main(int argc, char** argv) {
  std::cerr.setstate(std::ios::failbit);
  return runMain(argc, argv, "P10",
                 {
                     {"mutants", 30000, 500000, mutants},
                     {"wild", 30000, 500000, wild},
                     {"soup", 15000, 200000, soup},
                     {"invalid", 12000, 150000, invalid},
                     {"extreme", 300, 3000, extreme},
                     {"regressions", 200, 400, regressions, true},
                 });
}
