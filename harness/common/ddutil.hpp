#pragma once
#include "dd/DDDefinitions.hpp"
#include "dd/FunctionalityConstruction.hpp"
#include "dd/Operations.hpp"
#include "dd/Package.hpp"
#include "dd/Simulation.hpp"
#include "gen.hpp"

namespace vf {
// every case starts with the ordinary limits of automatic garbage collection
inline const bool gcLimitPerCase = [] {
  beforeCase = [](Ctx&) { dd::verifGCLimit = SIZE_MAX; };
  return true;
}();
// packages created from now on collect garbage automatically after few insertions
inline void randGCLimit(Rng& r, double p = 0.5) {
  static const std::vector<std::size_t> limits = {0, 1, 3, 10, 30, 100, 300};
  dd::verifGCLimit = r.chance(1 - p) ? SIZE_MAX : r.pick(limits);
}
inline dd::DDPackageConfig randConfig(Rng& r) {
  dd::DDPackageConfig c;
  randGCLimit(r);
  if (r.chance(0.15)) {
    return c;
  }
  // small tables: many collisions and evictions
  auto b = [&](std::size_t lo, std::size_t hi) { return std::size_t{1} << r.range(lo, hi); };
  c.utVecNumBucket = b(2, 10);
  c.utMatNumBucket = b(2, 10);
  c.utVecInitialAllocationSize = b(0, 8);
  c.utMatInitialAllocationSize = b(0, 8);
  c.ctVecAddNumBucket = b(0, 9);
  c.ctMatAddNumBucket = b(0, 9);
  c.ctVecAddMagNumBucket = b(0, 9);
  c.ctMatAddMagNumBucket = b(0, 9);
  c.ctVecConjNumBucket = b(0, 9);
  c.ctMatConjTransNumBucket = b(0, 9);
  c.ctMatVecMultNumBucket = b(0, 9);
  c.ctMatMatMultNumBucket = b(0, 9);
  c.ctVecKronNumBucket = b(0, 9);
  c.ctMatKronNumBucket = b(0, 9);
  c.ctMatTraceNumBucket = b(0, 9);
  c.ctVecInnerProdNumBucket = b(0, 9);
  return c;
}
inline Vec toVec(const dd::VectorDD& e) {
  const auto v = e.getVector();
  return Vec(v.begin(), v.end());
}
inline Mat toMat(const dd::MatrixDD& e, std::size_t n) {
  const auto m = e.getMatrix(n);
  Mat r(m.size());
  for (std::size_t i = 0; i < m.size(); ++i) {
    for (std::size_t j = 0; j < m.size(); ++j) {
      r.at(i, j) = m[i].at(j);
    }
  }
  return r;
}
inline dd::CMat toCMat(const Mat& m) {
  dd::CMat r(m.n, dd::CVec(m.n));
  for (std::size_t i = 0; i < m.n; ++i) {
    for (std::size_t j = 0; j < m.n; ++j) {
      r[i][j] = m.at(i, j);
    }
  }
  return r;
}
inline Vec randState(Rng& r, unsigned n) {
  Vec v(std::size_t{1} << n);
  const int kind = static_cast<int>(r.below(4));
  for (auto& x : v) {
    switch (kind) {
    case 0:
      x = C(r.uniform(-1, 1), r.uniform(-1, 1));
      break;
    case 1: // sparse
      x = r.chance(0.3) ? C(r.uniform(-1, 1), r.uniform(-1, 1)) : C(0);
      break;
    case 2: // few distinct values: sharing
      x = C(static_cast<double>(r.below(3)) - 1, static_cast<double>(r.below(3)) - 1);
      break;
    default:
      x = r.chance(0.5) ? 1 : 0;
    }
  }
  double s = norm2(v);
  if (s < 1e-9) {
    v[r.below(v.size())] = 1;
    s = norm2(v);
  }
  for (auto& x : v) {
    x /= std::sqrt(s);
  }
  return v;
}
inline std::string vecStr(const Vec& v) {
  std::ostringstream o;
  o.precision(6);
  for (const auto& x : v) {
    o << "(" << x.real() << "," << x.imag() << ") ";
  }
  return o.str();
}
} // namespace vf
