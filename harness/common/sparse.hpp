// Sparse reference simulation: circuits on many qubits whose states have few basis states.
#pragma once
#include "gen.hpp"

namespace vf {
using Key = unsigned __int128;
using Sparse = std::map<Key, C>;
inline bool bitOf(Key k, std::size_t q) { return static_cast<bool>((k >> q) & 1U); }
inline Key oneBit(std::size_t q) { return static_cast<Key>(1) << q; }
inline std::string keyStr(Key k, unsigned n) { // qubit 0 first
  std::string s;
  for (unsigned i = 0; i < n; ++i) {
    s += bitOf(k, i) ? '1' : '0';
  }
  return s;
}
inline Sparse runSparse(const Op& o, const Sparse& in) {
  if (o.k == Op::Barrier) {
    return in;
  }
  Sparse out;
  if (o.k == Op::Compound) {
    out = in;
    for (const auto& b : o.body) {
      out = runSparse(b, out);
    }
    return out;
  }
  const bool phase = o.k == Op::GPhase;
  const auto m = phase ? Mat(1) : gateMatrix(o.type, o.p);
  for (const auto& [k, a] : in) {
    bool act = true;
    for (const auto& c : o.c) {
      act = act && bitOf(k, c.q) == c.pos;
    }
    if (!act) {
      out[k] += a;
    } else if (phase) {
      out[k] += a * std::polar(1.0, o.p.at(0));
    } else {
      std::size_t col = 0;
      Key rest = k;
      for (const auto t : o.t) {
        col = (col << 1U) | (bitOf(k, t) ? 1U : 0U);
        rest &= ~oneBit(t);
      }
      for (std::size_t row = 0; row < m.n; ++row) {
        Key x = rest;
        for (std::size_t i = 0; i < o.t.size(); ++i) {
          if ((row >> (o.t.size() - 1 - i)) & 1U) {
            x |= oneBit(o.t[i]);
          }
        }
        out[x] += a * m.at(row, col);
      }
    }
  }
  for (auto it = out.begin(); it != out.end();) {
    it = std::abs(it->second) < 1e-13 ? out.erase(it) : std::next(it);
  }
  return out;
}
inline Key randKey(Rng& r, unsigned n) {
  Key k = 0;
  for (unsigned i = 0; i < n; ++i) {
    k |= static_cast<Key>(r.below(2)) << i;
  }
  return k;
}
// a circuit on n qubits that takes `in` to a state of few basis states
inline Circ genSparse(Rng& r, unsigned n, std::size_t nops, const Sparse& in, Sparse& out, std::size_t limit = 64) {
  Circ c;
  c.n = n;
  out = in;
  GenCfg g;
  g.n = n;
  g.maxCtl = 6;
  g.compound = 0.03;
  for (std::size_t i = 0; i < nops; ++i) {
    auto o = genOp(r, g);
    if (o.k == Op::Barrier) {
      o.t.resize(std::min<std::size_t>(o.t.size(), 5));
    }
    if (o.k == Op::Gate && !o.c.empty() && r.chance(0.8) && !out.empty()) {
      // controls that some basis state satisfies
      auto it = out.begin();
      std::advance(it, static_cast<long>(r.below(out.size())));
      for (auto& x : o.c) {
        x.pos = bitOf(it->first, x.q);
      }
    }
    auto next = runSparse(o, out);
    if (next.size() > limit) {
      continue;
    }
    out = std::move(next);
    c.ops.push_back(std::move(o));
  }
  return c;
}
} // namespace vf
