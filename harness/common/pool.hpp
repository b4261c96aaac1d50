// Histories of diagram operations: every object carries a dense shadow computed independently.
#pragma once
#include "ddutil.hpp"

namespace vf {
struct VObj {
  dd::vEdge e;
  Vec v;
  unsigned n;
  int refs;
};
struct MObj {
  dd::mEdge e;
  Mat m;
  unsigned n;
  int refs;
};
inline Vec mul(const Mat& m, const Vec& v) {
  Vec r(m.n);
  for (std::size_t i = 0; i < m.n; ++i) {
    for (std::size_t j = 0; j < m.n; ++j) {
      r[i] += m.at(i, j) * v[j];
    }
  }
  return r;
}
inline Vec kron(const Vec& x, const Vec& y) {
  Vec r;
  for (const auto& a : x) {
    for (const auto& b : y) {
      r.push_back(a * b);
    }
  }
  return r;
}
inline double maxAbs(const Vec& v) {
  double d = 0;
  for (const auto& x : v) {
    d = std::max(d, std::abs(x));
  }
  return d;
}
inline Mat embedLow(const Mat& m, unsigned from, unsigned to) {
  return from == to ? m : kron(Mat::id(std::size_t{1} << (to - from)), m);
}
// m acts on qubits qs (qs[0] least significant of m) of an n-qubit space
inline Mat embed(const Mat& m, const std::vector<unsigned>& qs, unsigned n) {
  Mat r(std::size_t{1} << n);
  for (std::size_t j = 0; j < r.n; ++j) {
    std::size_t cj = 0;
    std::size_t rest = j;
    for (std::size_t k = 0; k < qs.size(); ++k) {
      cj |= ((j >> qs[k]) & 1U) << k;
      rest &= ~(std::size_t{1} << qs[k]);
    }
    for (std::size_t ci = 0; ci < m.n; ++ci) {
      std::size_t i = rest;
      for (std::size_t k = 0; k < qs.size(); ++k) {
        i |= ((ci >> k) & 1U) << qs[k];
      }
      r.at(i, j) = m.at(ci, cj);
    }
  }
  return r;
}
inline Mat randDense(Rng& r, std::size_t d, int kind) {
  Mat m(d);
  for (std::size_t i = 0; i < d; ++i) {
    for (std::size_t j = 0; j < d; ++j) {
      switch (kind) {
      case 0:
        m.at(i, j) = C(r.uniform(-1, 1), r.uniform(-1, 1));
        break;
      case 1:
        m.at(i, j) = r.chance(0.3) ? C(r.uniform(-1, 1), r.uniform(-1, 1)) : C(0);
        break;
      case 2:
        m.at(i, j) = C(static_cast<double>(r.below(3)) - 1, static_cast<double>(r.below(3)) - 1);
        break;
      case 3:
        m.at(i, j) = i == j ? C(static_cast<double>(r.below(3)) - 1, static_cast<double>(r.below(2))) : C(0);
        break;
      default:
        m.at(i, j) = r.chance(0.25) ? 1 : 0;
      }
    }
  }
  if (maxAbs(m.a) < 1e-9) {
    m.at(0, 0) = 1;
  }
  return m;
}
// random matrices with much identity structure (skipped levels)
inline Mat randMat(Rng& r, unsigned n) {
  const int kind = static_cast<int>(r.below(5));
  if (n <= 1 || r.chance(0.35)) {
    return randDense(r, std::size_t{1} << n, kind);
  }
  const auto k = r.range(1, std::min<std::size_t>(n, 3));
  const auto qs = pickQubits(r, n, k);
  return embed(randDense(r, std::size_t{1} << k, kind), qs, n);
}
inline Mat randHermitian(Rng& r, unsigned n) {
  auto m = randMat(r, n);
  return scale(m + dagger(m), 0.5);
}
// dense view of a vector/matrix, zero diagrams included
inline Vec viewV(const dd::vEdge& e, unsigned n) {
  if (e.isTerminal() && n > 0) {
    return Vec(std::size_t{1} << n, static_cast<std::complex<double>>(e.w));
  }
  return toVec(e);
}

struct Pool {
  Ctx& c;
  dd::Package& dd;
  unsigned n;
  std::vector<VObj> vs;
  std::vector<MObj> ms;
  double tol = 1e-7;
  bool gc = false;      // interleave collections and cache clearing
  std::string log;
  std::size_t ops = 0;

  Pool(Ctx& ctx, dd::Package& p, unsigned nq) : c(ctx), dd(p), n(nq) {}
  void note(const std::string& s) {
    log += s;
    log += "; ";
    announce(c, log.size() > 3500 ? log.substr(log.size() - 3500) : log);
  }
  bool okV(const dd::vEdge& e, const Vec& v, const std::string& key) {
    const auto got = viewV(e, static_cast<unsigned>(std::log2(v.size()) + 0.5));
    const double d = dist(got, v);
    return c.check(d < tol * std::max(1., maxAbs(v)), key, cat("deviation ", d));
  }
  bool okM(const dd::mEdge& e, const Mat& m, const std::string& key) {
    const auto got = toMat(e, static_cast<std::size_t>(std::log2(m.n) + 0.5));
    const double d = dist(got, m);
    return c.check(d < tol * std::max(1., maxAbs(m.a)), key, cat("deviation ", d));
  }
  static C factorFor(double m) { return m > 4 || m < 0.05 ? C(1. / m) : C(1); }
  // keeps an object in the pool if its scale is sane (renormalised otherwise)
  void keep(dd::vEdge e, Vec v, unsigned k) {
    const double m = maxAbs(v);
    if (m < 1e-3 || vs.size() > 10) {
      return;
    }
    const auto f = factorFor(m);
    if (f != C(1)) {
      e.w = dd.cn.lookup(dd::ComplexValue(e.w) * dd::ComplexValue(f.real(), f.imag()));
      for (auto& x : v) {
        x *= f;
      }
    }
    dd.incRef(e);
    vs.push_back({e, std::move(v), k, 1});
  }
  void keep(dd::mEdge e, Mat m, unsigned k) {
    const double mx = maxAbs(m.a);
    if (mx < 1e-3 || ms.size() > 10) {
      return;
    }
    const auto f = factorFor(mx);
    if (f != C(1)) {
      e.w = dd.cn.lookup(dd::ComplexValue(e.w) * dd::ComplexValue(f.real(), f.imag()));
      m = scale(m, f);
    }
    dd.incRef(e);
    ms.push_back({e, std::move(m), k, 1});
  }
  void newV(unsigned k) {
    auto v = randState(c.rng, k);
    const auto e = dd.makeStateFromVector(dd::CVec(v.begin(), v.end()));
    note(cat("v", vs.size(), "=state(", k, ")"));
    okV(e, v, "state-roundtrip");
    keep(e, std::move(v), k);
    dd.decRef(e); // the builder's own reference
  }
  void newM(unsigned k) {
    auto m = randMat(c.rng, k);
    const auto e = dd.makeDDFromMatrix(toCMat(m));
    note(cat("m", ms.size(), "=matrix(", k, ")"));
    okM(e, m, "matrix-roundtrip");
    keep(e, std::move(m), k);
  }
  void newGate(unsigned k) {
    GenCfg g;
    g.n = k;
    const auto op = genGate(c.rng, g);
    const auto e = dd::getDD(*toOperation(op), dd);
    note(cat("m", ms.size(), "=", str(op)));
    auto m = unitaryOf(op, k);
    okM(e, m, "gate-diagram");
    keep(e, std::move(m), k);
  }
  int pickV(unsigned k) {
    std::vector<int> x;
    for (std::size_t i = 0; i < vs.size(); ++i) {
      if (vs[i].n == k) {
        x.push_back(static_cast<int>(i));
      }
    }
    return x.empty() ? -1 : x[c.rng.below(x.size())];
  }
  int pickM(unsigned k) {
    std::vector<int> x;
    for (std::size_t i = 0; i < ms.size(); ++i) {
      if (ms[i].n == k) {
        x.push_back(static_cast<int>(i));
      }
    }
    return x.empty() ? -1 : x[c.rng.below(x.size())];
  }
  void step() {
    auto& r = c.rng;
    ++ops;
    const unsigned k = r.chance(0.75) ? n : static_cast<unsigned>(r.range(1, n));
    int a = pickV(k);
    if (a < 0) {
      newV(k);
      a = pickV(k);
      if (a < 0) {
        drop();
        return;
      }
    }
    int p = pickM(k);
    if (p < 0) {
      r.chance(0.5) ? newM(k) : newGate(k);
      p = pickM(k);
      if (p < 0) {
        drop();
        return;
      }
    }
    const auto b = static_cast<std::size_t>(pickV(k));
    const auto q = static_cast<std::size_t>(pickM(k));
    const auto A = vs[static_cast<std::size_t>(a)];
    const auto B = vs[b];
    const auto P = ms[static_cast<std::size_t>(p)];
    const auto Q = ms[q];
    const auto what = r.below(22);
    switch (what) {
    case 0:
      newV(k);
      break;
    case 1:
      newM(k);
      break;
    case 2:
      newGate(k);
      break;
    case 3: {
      note(cat("v", a, "+v", b));
      auto x = A.v;
      for (std::size_t i = 0; i < x.size(); ++i) {
        x[i] += B.v[i];
      }
      const auto e = dd.add(A.e, B.e);
      okV(e, x, "vector-add");
      keep(e, x, k);
      break;
    }
    case 4: {
      note(cat("m", p, "+m", q));
      const auto e = dd.add(P.e, Q.e);
      auto m = P.m + Q.m;
      okM(e, m, "matrix-add");
      keep(e, m, k);
      break;
    }
    case 5: {
      note(cat("m", p, "*v", a));
      const auto e = dd.multiply(P.e, A.e);
      auto v = mul(P.m, A.v);
      okV(e, v, "matrix-vector-product");
      keep(e, v, k);
      break;
    }
    case 6: {
      note(cat("m", p, "*m", q));
      const auto e = dd.multiply(P.e, Q.e);
      auto m = P.m * Q.m;
      okM(e, m, "matrix-product");
      keep(e, m, k);
      break;
    }
    case 7: {
      note(cat("conj v", a));
      const auto e = dd.conjugate(A.e);
      auto v = A.v;
      for (auto& x : v) {
        x = std::conj(x);
      }
      okV(e, v, "conjugate");
      keep(e, v, k);
      break;
    }
    case 8: {
      note(cat("dagger m", p));
      const auto e = dd.conjugateTranspose(P.e);
      auto m = dagger(P.m);
      okM(e, m, "conjugate-transpose");
      keep(e, m, k);
      break;
    }
    case 9: { // tensor products, incl. diagrams whose upper levels are the identity
      const auto i = r.below(vs.size());
      const auto j = r.below(vs.size());
      if (vs[i].n + vs[j].n <= dd.qubits() && vs[i].n + vs[j].n <= 7) {
        note(cat("v", i, " (x) v", j));
        const auto e = dd.kronecker(vs[i].e, vs[j].e, vs[j].n);
        okV(e, kron(vs[i].v, vs[j].v), "vector-kronecker");
      }
      break;
    }
    case 10: {
      const auto i = r.below(ms.size());
      const auto j = r.below(ms.size());
      if (ms[i].n + ms[j].n <= dd.qubits() && ms[i].n + ms[j].n <= 6) {
        note(cat("m", i, " (x) m", j));
        const auto e = dd.kronecker(ms[i].e, ms[j].e, ms[j].n);
        okM(e, kron(ms[i].m, ms[j].m), "matrix-kronecker");
      }
      break;
    }
    case 11: {
      note(cat("<v", a, "|v", b, ">"));
      C s = 0;
      for (std::size_t i = 0; i < A.v.size(); ++i) {
        s += std::conj(A.v[i]) * B.v[i];
      }
      const auto ip = dd.innerProduct(A.e, B.e);
      c.check(std::abs(C(ip.r, ip.i) - s) < tol * 50, "inner-product", cat(ip.r, "+", ip.i, "i expected ", s));
      c.check(std::abs(dd.fidelity(A.e, B.e) - std::norm(s)) < tol * 200, "fidelity");
      break;
    }
    case 12: {
      note(cat("trace m", p));
      C s = 0;
      for (std::size_t i = 0; i < P.m.n; ++i) {
        s += P.m.at(i, i);
      }
      s /= static_cast<double>(P.m.n);
      const auto t = dd.trace(P.e, k);
      c.check(std::abs(C(t.r, t.i) - s) < tol, "trace", cat(t.r, "+", t.i, "i expected ", s));
      break;
    }
    case 13: {
      std::vector<bool> el(k);
      std::string bits;
      for (unsigned i = 0; i < k; ++i) {
        el[i] = r.chance(0.5);
        bits += el[i] ? '1' : '0';
      }
      note(cat("partial trace m", p, " eliminate ", bits));
      const auto e = dd.partialTrace(P.e, el);
      std::vector<unsigned> kept;
      std::vector<unsigned> gone;
      for (unsigned i = 0; i < k; ++i) {
        (el[i] ? gone : kept).push_back(i);
      }
      auto spread = [](std::size_t x, const std::vector<unsigned>& qs) {
        std::size_t y = 0;
        for (std::size_t t = 0; t < qs.size(); ++t) {
          y |= ((x >> t) & 1U) << qs[t];
        }
        return y;
      };
      Mat m(std::size_t{1} << kept.size());
      for (std::size_t i = 0; i < m.n; ++i) {
        for (std::size_t j = 0; j < m.n; ++j) {
          for (std::size_t t = 0; t < (std::size_t{1} << gone.size()); ++t) {
            m.at(i, j) += P.m.at(spread(i, kept) | spread(t, gone), spread(j, kept) | spread(t, gone));
          }
          m.at(i, j) /= static_cast<double>(std::size_t{1} << gone.size());
        }
      }
      okM(e, m, "partial-trace");
      break;
    }
    case 14: {
      const auto ko = static_cast<unsigned>(r.range(1, k)); // observables may act on fewer qubits
      auto h = randHermitian(r, ko);
      note(cat("expectation of hermitian(", ko, ") in v", a));
      const auto he = dd.makeDDFromMatrix(toCMat(h));
      if (he.isZeroTerminal()) {
        break;
      }
      const auto hv = mul(embedLow(h, ko, k), A.v);
      C s = 0;
      for (std::size_t i = 0; i < hv.size(); ++i) {
        s += std::conj(A.v[i]) * hv[i];
      }
      c.check(std::abs(dd.expectationValue(he, A.e) - s.real()) < tol * 100, "expectation-value", cat(s));
      break;
    }
    case 15:
    case 16: {
      std::vector<bool> mark(k);
      std::string bits;
      for (unsigned i = 0; i < k; ++i) {
        mark[i] = r.chance(0.4);
        bits += mark[i] ? '1' : '0';
      }
      const bool regular = r.chance(0.6);
      if (what == 15) {
        note(cat("reduce ancillae m", p, " ", bits, regular ? "" : " (rows)"));
        auto in = P.e;
        dd.incRef(in);
        const auto e = dd.reduceAncillae(in, mark, regular);
        auto m = P.m;
        for (std::size_t i = 0; i < m.n; ++i) {
          for (std::size_t j = 0; j < m.n; ++j) {
            for (unsigned t = 0; t < k; ++t) {
              if (mark[t] && (((regular ? j : i) >> t) & 1U) != 0) {
                m.at(i, j) = 0;
              }
            }
            // identity levels are cut down to the zero block in both forms
          }
        }
        okM(e, m, regular ? "reduce-ancillae" : "reduce-ancillae-rows");
        dd.decRef(e);
      } else {
        const bool normalise = r.chance(0.3);
        note(cat("reduce garbage m", p, " ", bits, regular ? "" : " (columns)", normalise ? " normalised" : ""));
        if (P.e.isZeroTerminal()) {
          break;
        }
        auto in = P.e;
        dd.incRef(in);
        const auto e = dd.reduceGarbage(in, mark, regular, normalise);
        std::size_t mask = 0;
        for (unsigned t = 0; t < k; ++t) {
          mask |= static_cast<std::size_t>(mark[t]) << t;
        }
        Mat sq(P.m.n);
        for (std::size_t i = 0; i < sq.n; ++i) {
          for (std::size_t j = 0; j < sq.n; ++j) {
            (regular ? sq.at(i & ~mask, j) : sq.at(i, j & ~mask)) += std::norm(P.m.at(i, j));
          }
        }
        auto got = toMat(e, k);
        for (auto& x : sq.a) {
          x = std::sqrt(x.real());
        }
        for (auto& x : got.a) {
          x = std::abs(x);
        }
        c.check(dist(got, sq) < tol, regular ? "reduce-garbage" : "reduce-garbage-columns", cat("deviation ", dist(got, sq)));
        dd.decRef(e);
      }
      break;
    }
    case 17: {
      std::vector<bool> mark(k);
      std::size_t mask = 0;
      for (unsigned i = 0; i < k; ++i) {
        mark[i] = r.chance(0.4);
        mask |= static_cast<std::size_t>(mark[i]) << i;
      }
      const bool normalise = r.chance(0.3);
      note(cat("reduce garbage v", a, " mask ", mask, normalise ? " normalised" : ""));
      auto in = A.e;
      dd.incRef(in);
      const auto e = dd.reduceGarbage(in, mark, normalise);
      Vec sq(A.v.size());
      for (std::size_t i = 0; i < sq.size(); ++i) {
        sq[i & ~mask] += std::norm(A.v[i]);
      }
      auto got = viewV(e, k);
      for (auto& x : sq) {
        x = std::sqrt(x.real());
      }
      for (auto& x : got) {
        x = normalise ? x : C(std::abs(x));
      }
      c.check(dist(got, sq) < tol, normalise ? "reduce-garbage-vector-normalised" : "reduce-garbage-vector", cat("deviation ", dist(got, sq)));
      dd.decRef(e);
      break;
    }
    case 18: { // a smaller matrix acts as if tensored with the identity above
      const auto i = r.below(ms.size());
      if (ms[i].n <= k) {
        note(cat("m", i, "*v", a, " (smaller)"));
        const auto e = dd.multiply(ms[i].e, A.e);
        okV(e, mul(embedLow(ms[i].m, ms[i].n, k), A.v), "small-matrix-vector-product");
        const auto f = dd.multiply(P.e, ms[i].e);
        okM(f, P.m * embedLow(ms[i].m, ms[i].n, k), "small-matrix-product");
      }
      break;
    }
    case 19:
      drop();
      break;
    case 20: { // negation and subtraction
      note(cat("v", a, "-v", b));
      auto x = A.v;
      for (std::size_t i = 0; i < x.size(); ++i) {
        x[i] -= B.v[i];
      }
      const dd::vEdge neg{B.e.p, dd::ComplexNumbers::neg(B.e.w)};
      const auto e = dd.add(A.e, neg);
      okV(e, x, "vector-subtract");
      keep(e, x, k);
      break;
    }
    default:
      if (gc) {
        collect();
      } else {
        revisit();
      }
    }
  }
  void drop() {
    auto& r = c.rng;
    if (r.chance(0.5) && vs.size() > 1) {
      const auto i = r.below(vs.size());
      note(cat("release v", i));
      dd.decRef(vs[i].e);
      vs.erase(vs.begin() + static_cast<std::ptrdiff_t>(i));
    } else if (ms.size() > 1) {
      const auto i = r.below(ms.size());
      note(cat("release m", i));
      dd.decRef(ms[i].e);
      ms.erase(ms.begin() + static_cast<std::ptrdiff_t>(i));
    }
  }
  void collect() {
    auto& r = c.rng;
    switch (r.below(4)) {
    case 0:
      note("clear caches");
      dd.clearComputeTables();
      c.count("cache-clears");
      break;
    default:
      note("collect");
      dd.garbageCollect(true);
      c.count("forced-collections");
    }
    revisit();
  }
  // every referenced object still denotes what it denoted
  void revisit() {
    for (std::size_t i = 0; i < vs.size(); ++i) {
      okV(vs[i].e, vs[i].v, "referenced-vector-changed");
    }
    for (std::size_t i = 0; i < ms.size(); ++i) {
      okM(ms[i].e, ms[i].m, "referenced-matrix-changed");
    }
  }
};
} // namespace vf
