From 799974b8f3b85d9d3337c98a0b4efdb3f90a4a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:55 +0000
Subject: [PATCH 001/142] fix: avoid undefined float-to-unsigned conversion in
 hash of complex values

---
 src/dd/ComplexValue.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/dd/ComplexValue.cpp b/src/dd/ComplexValue.cpp
index bfc9668..f63271e 100644
--- a/src/dd/ComplexValue.cpp
+++ b/src/dd/ComplexValue.cpp
@@ -304,10 +304,12 @@ std::ostream& operator<<(std::ostream& os, const ComplexValue& c) {
 namespace std {
 std::size_t
 hash<dd::ComplexValue>::operator()(const dd::ComplexValue& c) const noexcept {
-  const auto h1 = dd::murmur64(
-      static_cast<std::size_t>(std::round(c.r / dd::RealNumber::eps)));
-  const auto h2 = dd::murmur64(
-      static_cast<std::size_t>(std::round(c.i / dd::RealNumber::eps)));
+  // converting a negative floating point number directly to an unsigned integer
+  // is undefined behavior -> detour via a signed integer
+  const auto h1 = dd::murmur64(static_cast<std::size_t>(
+      static_cast<std::int64_t>(std::round(c.r / dd::RealNumber::eps))));
+  const auto h2 = dd::murmur64(static_cast<std::size_t>(
+      static_cast<std::int64_t>(std::round(c.i / dd::RealNumber::eps))));
   return qc::combineHash(h1, h2);
 }
 } // namespace std
-- 
2.43.0


From a50fa30601057dd145d8400ef5c473c050a00a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:05 +0000
Subject: [PATCH 002/142] fix: off-diagonal entries of identity matrix DDs are
 zero

---
 src/dd/Edge.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/dd/Edge.cpp b/src/dd/Edge.cpp
index 89ae1be..655378a 100644
--- a/src/dd/Edge.cpp
+++ b/src/dd/Edge.cpp
@@ -43,8 +43,10 @@ auto Edge<Node>::getValueByPath(const std::size_t numQubits,
                                 const std::string& decisions) const
     -> std::complex<fp> {
   auto c = static_cast<std::complex<fp>>(w);
-  if (isTerminal()) {
-    return c;
+  if constexpr (std::is_same_v<Node, vNode>) {
+    if (isTerminal()) {
+      return c;
+    }
   }
 
   auto r = *this;
@@ -356,10 +358,6 @@ template <typename T, isMatrixVariant<T>>
 auto Edge<Node>::getValueByIndex(const std::size_t numQubits,
                                  const std::size_t i, const std::size_t j) const
     -> std::complex<fp> {
-  if (isTerminal()) {
-    return static_cast<std::complex<fp>>(w);
-  }
-
   auto decisions = std::string(numQubits, '0');
   for (auto k = 0U; k < numQubits; ++k) {
     if ((i & (1ULL << k)) != 0U) {
-- 
2.43.0


From e86efd61ccc9db001d5dc2bf19a8c372c9a48bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:05 +0000
Subject: [PATCH 003/142] fix: apply the global phase when building the
 functionality of a circuit

---
 src/dd/FunctionalityConstruction.cpp | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/dd/FunctionalityConstruction.cpp b/src/dd/FunctionalityConstruction.cpp
index 0b6e32c..8cc1ffd 100644
--- a/src/dd/FunctionalityConstruction.cpp
+++ b/src/dd/FunctionalityConstruction.cpp
@@ -10,17 +10,37 @@
 
 #include "dd/FunctionalityConstruction.hpp"
 
+#include "dd/ComplexValue.hpp"
 #include "dd/Operations.hpp"
 #include "dd/Package.hpp"
 #include "ir/QuantumComputation.hpp"
 #include "ir/operations/OpType.hpp"
 
 #include <cmath>
+#include <complex>
 #include <cstddef>
 #include <stack>
 #include <utility>
 
 namespace dd {
+namespace {
+// properly account for the global phase of the circuit
+MatrixDD applyGlobalPhase(const qc::QuantumComputation& qc, MatrixDD e,
+                          Package& dd) {
+  if (std::abs(qc.getGlobalPhase()) > 0) {
+    // create a temporary copy for reference counting
+    const auto oldW = e.w;
+    // adjust for global phase
+    const auto globalPhase = ComplexValue{std::polar(1.0, qc.getGlobalPhase())};
+    e.w = dd.cn.lookup(e.w * globalPhase);
+    // adjust reference count
+    dd.cn.incRef(e.w);
+    dd.cn.decRef(oldW);
+  }
+  return e;
+}
+} // namespace
+
 MatrixDD buildFunctionality(const qc::QuantumComputation& qc, Package& dd) {
   if (qc.getNqubits() == 0U) {
     return MatrixDD::one();
@@ -44,7 +64,7 @@ MatrixDD buildFunctionality(const qc::QuantumComputation& qc, Package& dd) {
   e = dd.reduceAncillae(e, qc.getAncillary());
   e = dd.reduceGarbage(e, qc.getGarbage());
 
-  return e;
+  return applyGlobalPhase(qc, e, dd);
 }
 
 namespace {
@@ -124,7 +144,7 @@ MatrixDD buildFunctionalityRecursive(const qc::QuantumComputation& qc,
   if (qc.size() == 1U) {
     auto e = getDD(*qc.front(), dd, permutation);
     dd.incRef(e);
-    return e;
+    return applyGlobalPhase(qc, e, dd);
   }
 
   std::stack<MatrixDD> s{};
@@ -138,7 +158,7 @@ MatrixDD buildFunctionalityRecursive(const qc::QuantumComputation& qc,
   e = dd.reduceAncillae(e, qc.getAncillary());
   e = dd.reduceGarbage(e, qc.getGarbage());
 
-  return e;
+  return applyGlobalPhase(qc, e, dd);
 }
 
 } // namespace dd
-- 
2.43.0


From fb18143502d7e8b4388c10b04c54b90d48a06f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:05 +0000
Subject: [PATCH 004/142] fix: handle layouts and ancillaries of
 single-operation circuits in the recursive construction

---
 src/dd/FunctionalityConstruction.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/dd/FunctionalityConstruction.cpp b/src/dd/FunctionalityConstruction.cpp
index 8cc1ffd..2917c9a 100644
--- a/src/dd/FunctionalityConstruction.cpp
+++ b/src/dd/FunctionalityConstruction.cpp
@@ -16,6 +16,7 @@
 #include "ir/QuantumComputation.hpp"
 #include "ir/operations/OpType.hpp"
 
+#include <algorithm>
 #include <cmath>
 #include <complex>
 #include <cstddef>
@@ -139,16 +140,17 @@ MatrixDD buildFunctionalityRecursive(const qc::QuantumComputation& qc,
     return MatrixDD::one();
   }
 
-  auto permutation = qc.initialLayout;
-
-  if (qc.size() == 1U) {
-    auto e = getDD(*qc.front(), dd, permutation);
-    dd.incRef(e);
-    return applyGlobalPhase(qc, e, dd);
+  // nothing to divide in an empty circuit
+  if (qc.empty()) {
+    return buildFunctionality(qc, dd);
   }
 
+  auto permutation = qc.initialLayout;
+
   std::stack<MatrixDD> s{};
-  auto depth = static_cast<std::size_t>(std::ceil(std::log2(qc.size())));
+  const auto depth = std::max(
+      static_cast<std::size_t>(1U),
+      static_cast<std::size_t>(std::ceil(std::log2(qc.size()))));
   buildFunctionalityRecursive(qc, depth, 0, s, permutation, dd);
   auto e = s.top();
   s.pop();
-- 
2.43.0


From 00306cd2b20362b5ee5c409ea43f0d653a82d5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:00 +0000
Subject: [PATCH 005/142] fix: tensor products of matrices with identity levels
 at the top

---
 include/mqt-core/dd/Package.hpp | 36 ++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/include/mqt-core/dd/Package.hpp b/include/mqt-core/dd/Package.hpp
index 516c035..135056a 100644
--- a/include/mqt-core/dd/Package.hpp
+++ b/include/mqt-core/dd/Package.hpp
@@ -1457,9 +1457,28 @@ private:
       }
     }
 
+    // Determine the qubit index of the resulting node
+    Qubit idx = x.p->v;
+    if (incIdx) {
+      // use the given number of qubits for matrices as their topmost levels may
+      // be skipped (identity)
+      if constexpr (std::is_same_v<Node, mNode> ||
+                    std::is_same_v<Node, dNode>) {
+        auto yQubits = static_cast<Qubit>(yNumQubits);
+        if (!y.isIdentity()) {
+          yQubits = std::max(yQubits, static_cast<Qubit>(y.p->v + 1U));
+        }
+        idx += yQubits;
+      } else {
+        idx += static_cast<Qubit>(y.p->v + 1U);
+      }
+    }
+
     // check if we already computed the product before and return the result
+    // (the same operands may be combined with different index offsets)
     auto& computeTable = getKroneckerComputeTable<Node>();
-    if (const auto* r = computeTable.lookup(x.p, y.p); r != nullptr) {
+    if (const auto* r = computeTable.lookup(x.p, y.p);
+        r != nullptr && r->p != nullptr && r->p->v == idx) {
       return {r->p, rWeight};
     }
 
@@ -1469,21 +1488,6 @@ private:
       edge[i] = kronecker2(x.p->e[i], y, yNumQubits, incIdx);
     }
 
-    // Increase the qubit index
-    Qubit idx = x.p->v;
-    if (incIdx) {
-      // use the given number of qubits if y is an identity
-      if constexpr (std::is_same_v<Node, mNode> ||
-                    std::is_same_v<Node, dNode>) {
-        if (y.isIdentity()) {
-          idx += static_cast<Qubit>(yNumQubits);
-        } else {
-          idx += static_cast<Qubit>(y.p->v + 1U);
-        }
-      } else {
-        idx += static_cast<Qubit>(y.p->v + 1U);
-      }
-    }
     auto e = makeDDNode(idx, edge, true);
     computeTable.insert(x.p, y.p, {e.p, e.w});
     return {e.p, rWeight};
-- 
2.43.0


From 522b4dfbabb53197ee0dcc32e3d97b61421b0324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:06 +0000
Subject: [PATCH 006/142] fix: partial traces of matrices that skip eliminated
 levels

---
 include/mqt-core/dd/Package.hpp | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/include/mqt-core/dd/Package.hpp b/include/mqt-core/dd/Package.hpp
index 135056a..e9e8610 100644
--- a/include/mqt-core/dd/Package.hpp
+++ b/include/mqt-core/dd/Package.hpp
@@ -1581,8 +1581,8 @@ private:
    */
   template <class Node>
   CachedEdge<Node> trace(const Edge<Node>& a,
-                         const std::vector<bool>& eliminate, std::size_t level,
-                         std::size_t alreadyEliminated = 0) {
+                         const std::vector<bool>& eliminate,
+                         std::size_t level) {
     const auto aWeight = static_cast<ComplexValue>(a.w);
     if (aWeight.approximatelyZero()) {
       return CachedEdge<Node>::zero();
@@ -1615,9 +1615,8 @@ private:
         }
       }
 
-      const auto elims = alreadyEliminated + 1;
-      auto r = add2(trace(a.p->e[0], eliminate, level - 1, elims),
-                    trace(a.p->e[3], eliminate, level - 1, elims), v - 1);
+      auto r = add2(trace(a.p->e[0], eliminate, level - 1),
+                    trace(a.p->e[3], eliminate, level - 1), v - 1);
 
       // The resulting weight is continuously normalized to the range [0,1] for
       // matrix nodes
@@ -1636,15 +1635,13 @@ private:
 
     std::array<CachedEdge<Node>, NEDGE> edge{};
     std::transform(a.p->e.cbegin(), a.p->e.cend(), edge.begin(),
-                   [this, &eliminate, &alreadyEliminated,
+                   [this, &eliminate,
                     &level](const Edge<Node>& e) -> CachedEdge<Node> {
-                     return trace(e, eliminate, level - 1, alreadyEliminated);
+                     return trace(e, eliminate, level - 1);
                    });
-    const auto adjustedV =
-        static_cast<Qubit>(static_cast<std::size_t>(a.p->v) -
-                           (static_cast<std::size_t>(std::count(
-                                eliminate.begin(), eliminate.end(), true)) -
-                            alreadyEliminated));
+    // the remaining qubits move down by the number of eliminated qubits below
+    const auto adjustedV = static_cast<Qubit>(
+        v - std::count(eliminate.begin(), eliminate.begin() + v, true));
     auto r = makeDDNode(adjustedV, edge);
     r.w = r.w * aWeight;
     return r;
-- 
2.43.0


From e599331952cd3d312d47be80d93e5ea6de6f14d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:16 +0000
Subject: [PATCH 007/142] fix: order of numbers inserted at bucket borders of
 the number table

---
 src/dd/RealNumberUniqueTable.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dd/RealNumberUniqueTable.cpp b/src/dd/RealNumberUniqueTable.cpp
index 94f7ba3..58c6ae7 100644
--- a/src/dd/RealNumberUniqueTable.cpp
+++ b/src/dd/RealNumberUniqueTable.cpp
@@ -136,9 +136,9 @@ RealNumber* RealNumberUniqueTable::lookupNonNegative(const fp val) {
   // Depending on which border of the bucket the value lies, a value either
   // needs to be inserted in the front or the back of the bucket.
   if (key == lowerKey) {
-    return insertFront(key, val);
+    return insertBack(key, val);
   }
-  return insertBack(key, val);
+  return insertFront(key, val);
 }
 
 bool RealNumberUniqueTable::possiblyNeedsCollection() const noexcept {
-- 
2.43.0


From c660f0a09c49a47ee1b96a432671b6199e9a07f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:17 +0000
Subject: [PATCH 008/142] fix: invalidate all caches of collected nodes

---
 src/dd/Package.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dd/Package.cpp b/src/dd/Package.cpp
index 6b3f0e2..d58680b 100644
--- a/src/dd/Package.cpp
+++ b/src/dd/Package.cpp
@@ -115,6 +115,8 @@ bool Package::garbageCollect(bool force) {
   // been collected
   if (vCollect > 0) {
     vectorAdd.clear();
+    vectorAddMagnitudes.clear();
+    conjugateVector.clear();
     vectorInnerProduct.clear();
     vectorKronecker.clear();
     matrixVectorMultiplication.clear();
@@ -123,6 +125,7 @@ bool Package::garbageCollect(bool force) {
   // been collected
   if (mCollect > 0) {
     matrixAdd.clear();
+    matrixAddMagnitudes.clear();
     conjugateMatrixTranspose.clear();
     matrixKronecker.clear();
     matrixTrace.clear();
-- 
2.43.0


From 36654d27aa77ef302c534089be0c84a62025b58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:17 +0000
Subject: [PATCH 009/142] fix: size of unary compute tables after clearing

---
 include/mqt-core/dd/UnaryComputeTable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mqt-core/dd/UnaryComputeTable.hpp b/include/mqt-core/dd/UnaryComputeTable.hpp
index f3e684d..d69ba9c 100644
--- a/include/mqt-core/dd/UnaryComputeTable.hpp
+++ b/include/mqt-core/dd/UnaryComputeTable.hpp
@@ -106,7 +106,7 @@ public:
    * @brief Clear the compute table
    * @details Sets all entries to invalid.
    */
-  void clear() { valid = std::vector(NBUCKET, false); }
+  void clear() { valid = std::vector(stats.numBuckets, false); }
 
 private:
   /// The actual table storing the entries
-- 
2.43.0


From ba6cf4c7b0dbb025deca77e5e1e00b8e46d1c239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:17 +0000
Subject: [PATCH 010/142] fix: stale reference counts after resetting a memory
 manager

---
 src/dd/MemoryManager.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dd/MemoryManager.cpp b/src/dd/MemoryManager.cpp
index fc05b2e..b0cf3b8 100644
--- a/src/dd/MemoryManager.cpp
+++ b/src/dd/MemoryManager.cpp
@@ -12,6 +12,7 @@
 
 #include "dd/LinkedListBase.hpp"
 
+#include <algorithm>
 #include <cassert>
 #include <cstddef>
 
@@ -55,6 +56,9 @@ void MemoryManager::reset(const bool resizeToTotal) noexcept {
     ++numAllocations;
   }
 
+  // entries handed out after the reset must not inherit reference counts
+  std::fill(chunks[0].begin(), chunks[0].end(), std::byte{0});
+
   chunkIt = chunks[0].begin();
   chunkEndIt = chunks[0].end();
 
-- 
2.43.0


From 665f8b7880458fe0bca1d206ef401e57aa074a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:38 +0000
Subject: [PATCH 011/142] fix: sample reads each classical bit from the qubit
 last measured into it

---
 src/dd/Simulation.cpp | 42 ++++++++++++++++++------------------------
 1 file changed, 18 insertions(+), 24 deletions(-)

diff --git a/src/dd/Simulation.cpp b/src/dd/Simulation.cpp
index 7606fe6..99e5f35 100644
--- a/src/dd/Simulation.cpp
+++ b/src/dd/Simulation.cpp
@@ -53,7 +53,7 @@ std::map<std::string, std::size_t> sample(const qc::QuantumComputation& qc,
     mt.seed(seeds);
   }
 
-  std::map<qc::Qubit, std::size_t> measurementMap{};
+  std::map<std::size_t, qc::Qubit> measurementMap{};
 
   // rudimentary check whether circuit is dynamic
   for (const auto& op : qc) {
@@ -64,7 +64,7 @@ std::map<std::string, std::size_t> sample(const qc::QuantumComputation& qc,
     }
 
     // once a measurement is encountered we store the corresponding mapping
-    // (qubit -> bit)
+    // (bit -> qubit), where later measurements overwrite earlier ones
     if (const auto* measure = dynamic_cast<qc::NonUnitaryOperation*>(op.get());
         measure != nullptr && measure->getType() == qc::Measure) {
       hasMeasurements = true;
@@ -73,7 +73,7 @@ std::map<std::string, std::size_t> sample(const qc::QuantumComputation& qc,
       const auto& classic = measure->getClassics();
 
       for (std::size_t i = 0; i < quantum.size(); ++i) {
-        measurementMap[quantum.at(i)] = classic.at(i);
+        measurementMap[classic.at(i)] = quantum.at(i);
       }
     }
 
@@ -111,10 +111,6 @@ std::map<std::string, std::size_t> sample(const qc::QuantumComputation& qc,
       e = applyUnitaryOperation(*op, e, dd, permutation);
     }
 
-    // correct permutation if necessary
-    changePermutation(e, permutation, qc.outputPermutation, dd);
-    e = dd.reduceGarbage(e, qc.getGarbage());
-
     // measure all qubits
     std::map<std::string, std::size_t> counts{};
     for (std::size_t i = 0U; i < shots; ++i) {
@@ -125,27 +121,25 @@ std::map<std::string, std::size_t> sample(const qc::QuantumComputation& qc,
     // reduce reference count of measured state
     dd.decRef(e);
 
+    if (!hasMeasurements) {
+      for (const auto& [qubit, bit] : qc.outputPermutation) {
+        measurementMap[bit] = qubit;
+      }
+    }
+
     std::map<std::string, std::size_t> actualCounts{};
     const auto numBits =
-        qc.getClassicalRegisters().empty() ? qc.getNqubits() : qc.getNcbits();
+        hasMeasurements ? qc.getNcbits()
+                        : std::max(qc.getNqubits(), qc.getNcbits());
     for (const auto& [bitstring, count] : counts) {
       std::string measurement(numBits, '0');
-      if (hasMeasurements) {
-        // if the circuit contains measurements, we only want to return the
-        // measured bits
-        for (const auto& [qubit, bit] : measurementMap) {
-          // measurement map specifies that the circuit `qubit` is measured into
-          // a certain `bit`
-          measurement[numBits - 1U - bit] =
-              bitstring[bitstring.size() - 1U - qc.outputPermutation.at(qubit)];
-        }
-      } else {
-        // otherwise, we consider the output permutation for determining where
-        // to measure the qubits to
-        for (const auto& [qubit, bit] : qc.outputPermutation) {
-          measurement[numBits - 1U - bit] =
-              bitstring[bitstring.size() - 1U - qubit];
-        }
+      // if the circuit contains measurements, we only want to return the
+      // measured bits. Otherwise, we consider the output permutation for
+      // determining where to measure the qubits to
+      for (const auto& [bit, qubit] : measurementMap) {
+        // the circuit `qubit` is measured into a certain `bit`
+        measurement[numBits - 1U - bit] =
+            bitstring[bitstring.size() - 1U - permutation.at(qubit)];
       }
       actualCounts[measurement] += count;
     }
-- 
2.43.0


From 15d46196502fcf4b4e61f2d19d06a010745755d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:20 +0000
Subject: [PATCH 012/142] fix: Package::transfer visits every successor before
 its parent (and survives terminal ones)

---
 include/mqt-core/dd/Package.hpp | 81 +++++++++++----------------------
 1 file changed, 26 insertions(+), 55 deletions(-)

diff --git a/include/mqt-core/dd/Package.hpp b/include/mqt-core/dd/Package.hpp
index e9e8610..21b1b1b 100644
--- a/include/mqt-core/dd/Package.hpp
+++ b/include/mqt-core/dd/Package.hpp
@@ -1784,75 +1784,46 @@ public:
       return {original.p, cn.lookup(original.w)};
     }
 
-    // POST ORDER TRAVERSAL USING ONE STACK
-    // https://www.geeksforgeeks.org/iterative-postorder-traversal-using-stack/
+    // post-order traversal: a node is mapped once all its successors are
     Edge<Node> root{};
     std::stack<Edge<Node>*> stack;
+    stack.push(&original);
 
     std::unordered_map<decltype(original.p), decltype(original.p)> mappedNode{};
 
-    Edge<Node>* currentEdge = &original;
     constexpr std::size_t n = std::tuple_size_v<decltype(original.p->e)>;
-    // NOLINTNEXTLINE(cppcoreguidelines-avoid-do-while)
-    do {
-      while (currentEdge != nullptr && !currentEdge->isTerminal()) {
-        for (std::size_t i = n - 1; i > 0; --i) {
-          auto& edge = currentEdge->p->e[i];
-          if (edge.isTerminal()) {
-            continue;
-          }
-          if (edge.w.approximatelyZero()) {
-            continue;
-          }
-          if (mappedNode.find(edge.p) != mappedNode.end()) {
-            continue;
-          }
-
-          // non-zero edge to be included
-          stack.push(&edge);
-        }
-        stack.push(currentEdge);
-        currentEdge = &currentEdge->p->e[0];
+    while (!stack.empty()) {
+      auto* currentEdge = stack.top();
+      if (mappedNode.find(currentEdge->p) != mappedNode.end()) {
+        stack.pop();
+        continue;
       }
-      currentEdge = stack.top();
-      stack.pop();
 
-      bool hasChild = false;
-      for (std::size_t i = 1; i < n && !hasChild; ++i) {
-        auto& edge = currentEdge->p->e[i];
-        if (edge.w.approximatelyZero()) {
-          continue;
-        }
-        if (mappedNode.find(edge.p) != mappedNode.end()) {
+      bool hasUnmappedSuccessor = false;
+      for (auto& edge : currentEdge->p->e) {
+        if (edge.isTerminal() || mappedNode.find(edge.p) != mappedNode.end()) {
           continue;
         }
-        hasChild = edge.p == stack.top()->p;
+        stack.push(&edge);
+        hasUnmappedSuccessor = true;
+      }
+      if (hasUnmappedSuccessor) {
+        continue;
       }
 
-      if (hasChild) {
-        Edge<Node>* temp = stack.top();
-        stack.pop();
-        stack.push(currentEdge);
-        currentEdge = temp;
-      } else {
-        if (mappedNode.find(currentEdge->p) != mappedNode.end()) {
-          currentEdge = nullptr;
-          continue;
-        }
-        std::array<Edge<Node>, n> edges{};
-        for (std::size_t i = 0; i < n; i++) {
-          if (currentEdge->p->e[i].isTerminal()) {
-            edges[i].p = currentEdge->p->e[i].p;
-          } else {
-            edges[i].p = mappedNode[currentEdge->p->e[i].p];
-          }
-          edges[i].w = cn.lookup(currentEdge->p->e[i].w);
+      std::array<Edge<Node>, n> edges{};
+      for (std::size_t i = 0; i < n; i++) {
+        if (currentEdge->p->e[i].isTerminal()) {
+          edges[i].p = currentEdge->p->e[i].p;
+        } else {
+          edges[i].p = mappedNode[currentEdge->p->e[i].p];
         }
-        root = makeDDNode(currentEdge->p->v, edges);
-        mappedNode[currentEdge->p] = root.p;
-        currentEdge = nullptr;
+        edges[i].w = cn.lookup(currentEdge->p->e[i].w);
       }
-    } while (!stack.empty());
+      root = makeDDNode(currentEdge->p->v, edges);
+      mappedNode[currentEdge->p] = root.p;
+      stack.pop();
+    }
     root.w = cn.lookup(original.w * root.w);
     return root;
   }
-- 
2.43.0


From ee96b95eb388c30937db88f2a4bf826e0c43bfba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:20 +0000
Subject: [PATCH 013/142] fix: deserialise diagrams that consist of a terminal
 edge only

---
 include/mqt-core/dd/Package.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/mqt-core/dd/Package.hpp b/include/mqt-core/dd/Package.hpp
index 21b1b1b..b23990b 100644
--- a/include/mqt-core/dd/Package.hpp
+++ b/include/mqt-core/dd/Package.hpp
@@ -1837,7 +1837,8 @@ public:
   template <class Node, class Edge = Edge<Node>,
             std::size_t N = std::tuple_size_v<decltype(Node::e)>>
   Edge deserialize(std::istream& is, const bool readBinary = false) {
-    auto result = CachedEdge<Node>{};
+    // without any nodes, the diagram only consists of a terminal edge
+    auto result = CachedEdge<Node>::one();
     ComplexValue rootweight{};
 
     std::unordered_map<std::int64_t, Node*> nodes{};
-- 
2.43.0


From 0208e0a950511f870ce035865d2e92db9f210037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:17 +0000
Subject: [PATCH 014/142] fix: Graphviz exports name nodes by their full
 address

---
 include/mqt-core/dd/Export.hpp | 14 +++++-------
 src/dd/Export.cpp              | 40 ++++++++++------------------------
 2 files changed, 18 insertions(+), 36 deletions(-)

diff --git a/include/mqt-core/dd/Export.hpp b/include/mqt-core/dd/Export.hpp
index fbc1c35..8b5790e 100644
--- a/include/mqt-core/dd/Export.hpp
+++ b/include/mqt-core/dd/Export.hpp
@@ -46,7 +46,7 @@ static std::ostream& header(const Edge<Node>& e, std::ostream& os,
   os << "t [label=<<font "
         "point-size=\"20\">1</"
         "font>>,shape=box,tooltip=\"1\",width=0.3,height=0.3]\n";
-  auto toplabel = (reinterpret_cast<std::uintptr_t>(e.p) & 0x001fffffU) >> 1U;
+  auto toplabel = reinterpret_cast<std::uintptr_t>(e.p) >> 1U;
   os << "root->";
   if (e.isTerminal()) {
     os << "t";
@@ -76,7 +76,7 @@ static std::ostream& coloredHeader(const Edge<Node>& e, std::ostream& os,
         "point-size=\"20\">1</"
         "font>>,shape=box,tooltip=\"1\",width=0.3,height=0.3]\n";
 
-  auto toplabel = (reinterpret_cast<std::uintptr_t>(e.p) & 0x001fffffU) >> 1U;
+  auto toplabel = reinterpret_cast<std::uintptr_t>(e.p) >> 1U;
   auto mag = thicknessFromMagnitude(e.w);
   auto color = colorFromPhase(e.w);
   os << "root->";
@@ -103,7 +103,7 @@ static std::ostream& memoryHeader(const Edge<Node>& e, std::ostream& os,
         "point-size=\"20\">1</"
         "font>>,shape=box,tooltip=\"1\",width=0.3,height=0.3]\n";
 
-  auto toplabel = (reinterpret_cast<std::uintptr_t>(e.p) & 0x001fffffU) >> 1U;
+  auto toplabel = reinterpret_cast<std::uintptr_t>(e.p) >> 1U;
   auto mag = thicknessFromMagnitude(e.w);
   auto color = colorFromPhase(e.w);
   os << "root->";
@@ -158,8 +158,7 @@ std::ostream& classicNode(const vEdge& e, std::ostream& os,
 template <class Node>
 static std::ostream& memoryNode(const Edge<Node>& e, std::ostream& os) {
   constexpr std::size_t n = std::tuple_size_v<decltype(e.p->e)>;
-  auto nodelabel = (reinterpret_cast<std::uintptr_t>(e.p) & 0x001fffffU) >>
-                   1U; // this allows for 2^20 (roughly 1e6) unique nodes
+  auto nodelabel = reinterpret_cast<std::uintptr_t>(e.p) >> 1U;
   os << nodelabel << "[label=<";
   os << R"(<font point-size="10"><table border="1" cellspacing="0" cellpadding="2" style="rounded">)";
   os << R"(<tr><td colspan=")" << n << R"(" border="1" sides="B">)" << std::hex
@@ -200,9 +199,8 @@ template <class Node>
 static std::ostream& memoryEdge(const Edge<Node>& from, const Edge<Node>& to,
                                 std::uint16_t idx, std::ostream& os,
                                 bool edgeLabels = false) {
-  auto fromlabel =
-      (reinterpret_cast<std::uintptr_t>(from.p) & 0x001fffffU) >> 1U;
-  auto tolabel = (reinterpret_cast<std::uintptr_t>(to.p) & 0x001fffffU) >> 1U;
+  auto fromlabel = reinterpret_cast<std::uintptr_t>(from.p) >> 1U;
+  auto tolabel = reinterpret_cast<std::uintptr_t>(to.p) >> 1U;
 
   os << fromlabel << ":" << idx << ":s->";
   if (to.isTerminal()) {
diff --git a/src/dd/Export.cpp b/src/dd/Export.cpp
index 6f58042..b122976 100644
--- a/src/dd/Export.cpp
+++ b/src/dd/Export.cpp
@@ -159,9 +159,7 @@ std::string conditionalFormat(const Complex& a, const bool formatAsPolar) {
 }
 std::ostream& modernNode(const mEdge& e, std::ostream& os,
                          const bool formatAsPolar) {
-  const auto nodelabel =
-      (reinterpret_cast<std::uintptr_t>(e.p) & 0x001fffffU) >>
-      1U; // this allows for 2^20 (roughly 1e6) unique nodes
+  const auto nodelabel = reinterpret_cast<std::uintptr_t>(e.p) >> 1U;
   os << nodelabel << "[label=<";
   os << R"(<font point-size="10"><table border="1" cellspacing="0" cellpadding="2" style="rounded">)";
   os << R"(<tr><td colspan="2" rowspan="2" port="0" href="javascript:;" border="0" tooltip=")"
@@ -200,9 +198,7 @@ std::ostream& modernNode(const mEdge& e, std::ostream& os,
 }
 std::ostream& modernNode(const vEdge& e, std::ostream& os,
                          const bool formatAsPolar) {
-  const auto nodelabel =
-      (reinterpret_cast<std::uintptr_t>(e.p) & 0x001fffffU) >>
-      1U; // this allows for 2^20 (roughly 1e6) unique nodes
+  const auto nodelabel = reinterpret_cast<std::uintptr_t>(e.p) >> 1U;
   os << nodelabel << "[label=<";
   os << R"(<font point-size="8"><table border="1" cellspacing="0" cellpadding="0" style="rounded">)";
   os << R"(<tr><td colspan="2" border="0" cellpadding="1"><font point-size="20">q<sub><font point-size="12">)"
@@ -228,9 +224,7 @@ std::ostream& modernNode(const vEdge& e, std::ostream& os,
 }
 std::ostream& classicNode(const mEdge& e, std::ostream& os,
                           const bool formatAsPolar) {
-  const auto nodelabel =
-      (reinterpret_cast<std::uintptr_t>(e.p) & 0x001fffffU) >>
-      1U; // this allows for 2^20 (roughly 1e6) unique nodes
+  const auto nodelabel = reinterpret_cast<std::uintptr_t>(e.p) >> 1U;
   os << nodelabel << "[shape=circle, width=0.53, fixedsize=true, label=<";
   os << R"(<font point-size="6"><table border="0" cellspacing="0" cellpadding="0">)";
   os << R"(<tr><td colspan="4"><font point-size="18">q<sub><font point-size="10">)"
@@ -280,9 +274,7 @@ std::ostream& classicNode(const mEdge& e, std::ostream& os,
 }
 std::ostream& classicNode(const vEdge& e, std::ostream& os,
                           const bool formatAsPolar) {
-  const auto nodelabel =
-      (reinterpret_cast<std::uintptr_t>(e.p) & 0x001fffffU) >>
-      1U; // this allows for 2^20 (roughly 1e6) unique nodes
+  const auto nodelabel = reinterpret_cast<std::uintptr_t>(e.p) >> 1U;
   os << nodelabel << "[shape=circle, width=0.46, fixedsize=true, label=<";
   os << R"(<font point-size="6"><table border="0" cellspacing="0" cellpadding="0">)";
   os << R"(<tr><td colspan="2"><font point-size="18">q<sub><font point-size="10">)"
@@ -314,10 +306,8 @@ std::ostream& bwEdge(const mEdge& from, const mEdge& to,
                      const std::uint16_t idx, std::ostream& os,
                      const bool edgeLabels, const bool classic,
                      const bool formatAsPolar) {
-  const auto fromlabel =
-      (reinterpret_cast<std::uintptr_t>(from.p) & 0x001fffffU) >> 1U;
-  const auto tolabel =
-      (reinterpret_cast<std::uintptr_t>(to.p) & 0x001fffffU) >> 1U;
+  const auto fromlabel = reinterpret_cast<std::uintptr_t>(from.p) >> 1U;
+  const auto tolabel = reinterpret_cast<std::uintptr_t>(to.p) >> 1U;
 
   os << fromlabel << ":" << idx << ":";
   if (classic) {
@@ -362,10 +352,8 @@ std::ostream& bwEdge(const vEdge& from, const vEdge& to,
                      const std::uint16_t idx, std::ostream& os,
                      const bool edgeLabels, [[maybe_unused]] const bool classic,
                      const bool formatAsPolar) {
-  const auto fromlabel =
-      (reinterpret_cast<std::uintptr_t>(from.p) & 0x001fffffU) >> 1U;
-  const auto tolabel =
-      (reinterpret_cast<std::uintptr_t>(to.p) & 0x001fffffU) >> 1U;
+  const auto fromlabel = reinterpret_cast<std::uintptr_t>(from.p) >> 1U;
+  const auto tolabel = reinterpret_cast<std::uintptr_t>(to.p) >> 1U;
 
   os << fromlabel << ":" << idx << ":";
   os << (idx == 0 ? "sw" : "se") << "->";
@@ -393,10 +381,8 @@ std::ostream& coloredEdge(const mEdge& from, const mEdge& to,
                           const std::uint16_t idx, std::ostream& os,
                           const bool edgeLabels, const bool classic,
                           const bool formatAsPolar) {
-  const auto fromlabel =
-      (reinterpret_cast<std::uintptr_t>(from.p) & 0x001fffffU) >> 1U;
-  const auto tolabel =
-      (reinterpret_cast<std::uintptr_t>(to.p) & 0x001fffffU) >> 1U;
+  const auto fromlabel = reinterpret_cast<std::uintptr_t>(from.p) >> 1U;
+  const auto tolabel = reinterpret_cast<std::uintptr_t>(to.p) >> 1U;
 
   os << fromlabel << ":" << idx << ":";
   if (classic) {
@@ -441,10 +427,8 @@ std::ostream& coloredEdge(const vEdge& from, const vEdge& to,
                           const bool edgeLabels,
                           [[maybe_unused]] const bool classic,
                           const bool formatAsPolar) {
-  const auto fromlabel =
-      (reinterpret_cast<std::uintptr_t>(from.p) & 0x001fffffU) >> 1U;
-  const auto tolabel =
-      (reinterpret_cast<std::uintptr_t>(to.p) & 0x001fffffU) >> 1U;
+  const auto fromlabel = reinterpret_cast<std::uintptr_t>(from.p) >> 1U;
+  const auto tolabel = reinterpret_cast<std::uintptr_t>(to.p) >> 1U;
 
   os << fromlabel << ":" << idx << ":";
   os << (idx == 0 ? "sw" : "se") << "->";
-- 
2.43.0


From 10ad662529a25b1287e50a2ee9a3c686e801b843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:44 +0000
Subject: [PATCH 015/142] fix: tell density matrix operands and results apart
 in the multiplication cache

---
 include/mqt-core/dd/ComputeTable.hpp | 53 ++++++++++++++++++++++++++--
 include/mqt-core/dd/Package.hpp      |  2 +-
 2 files changed, 51 insertions(+), 4 deletions(-)

diff --git a/include/mqt-core/dd/ComputeTable.hpp b/include/mqt-core/dd/ComputeTable.hpp
index 50ec59e..95bf650 100644
--- a/include/mqt-core/dd/ComputeTable.hpp
+++ b/include/mqt-core/dd/ComputeTable.hpp
@@ -20,9 +20,11 @@
 #include "ir/Definitions.hpp"
 
 #include <cstddef>
+#include <cstdint>
 #include <functional>
 #include <iostream>
 #include <stdexcept>
+#include <type_traits>
 #include <vector>
 
 namespace dd {
@@ -49,6 +51,9 @@ public:
     stats.numBuckets = numBuckets;
     valid = std::vector(numBuckets, false);
     table = std::vector<Entry>(numBuckets);
+    if constexpr (HAS_DENSITY_OPERANDS) {
+      densityFlags.resize(numBuckets);
+    }
   }
 
   /**
@@ -101,9 +106,11 @@ public:
    * @param leftOperand The left operand
    * @param rightOperand The right operand
    * @param result The result of the operation
+   * @param useDensityMatrix Whether the result is a density matrix
    */
   void insert(const LeftOperandType& leftOperand,
-              const RightOperandType& rightOperand, const ResultType& result) {
+              const RightOperandType& rightOperand, const ResultType& result,
+              [[maybe_unused]] const bool useDensityMatrix = false) {
     const auto key = hash(leftOperand, rightOperand);
     if (valid[key]) {
       ++stats.collisions;
@@ -112,6 +119,10 @@ public:
       valid[key] = true;
     }
     table[key] = {leftOperand, rightOperand, result};
+    if constexpr (HAS_DENSITY_OPERANDS) {
+      densityFlags[key] =
+          densityKey(leftOperand, rightOperand, useDensityMatrix);
+    }
   }
 
   /**
@@ -138,9 +149,17 @@ public:
     if (entry.rightOperand != rightOperand) {
       return result;
     }
+    if constexpr (HAS_DENSITY_OPERANDS) {
+      // The meaning of the operands depends on their temporary flags. Since
+      // density matrices are reduced representations of matrices, a density
+      // matrix may not be returned when a matrix is required and vice versa
+      if (densityFlags[key] !=
+          densityKey(leftOperand, rightOperand, useDensityMatrix)) {
+        return result;
+      }
+    }
 
-    if constexpr (std::is_same_v<RightOperandType, dNode*> ||
-                  std::is_same_v<RightOperandType, dCachedEdge>) {
+    if constexpr (std::is_same_v<RightOperandType, dCachedEdge>) {
       // Since density matrices are reduced representations of matrices, a
       // density matrix may not be returned when a matrix is required and vice
       // versa
@@ -170,8 +189,36 @@ public:
   }
 
 private:
+  static constexpr bool HAS_DENSITY_OPERANDS =
+      std::is_same_v<LeftOperandType, dNode*> ||
+      std::is_same_v<RightOperandType, dNode*>;
+
+  /// Get the temporary flags of an operand (if it is a density matrix node)
+  template <class OperandType>
+  [[nodiscard]] static std::uintptr_t
+  operandFlags([[maybe_unused]] const OperandType& operand) {
+    if constexpr (std::is_same_v<OperandType, dNode*>) {
+      if (!dNode::isTerminal(operand)) {
+        return dNode::getDensityMatrixTempFlags(operand->flags);
+      }
+    }
+    return 0U;
+  }
+
+  /// Combine everything that distinguishes operations on the same nodes
+  [[nodiscard]] static std::uint8_t
+  densityKey(const LeftOperandType& leftOperand,
+             const RightOperandType& rightOperand,
+             const bool useDensityMatrix) {
+    return static_cast<std::uint8_t>(operandFlags(leftOperand) |
+                                     (operandFlags(rightOperand) << 3U) |
+                                     (useDensityMatrix ? (1U << 6U) : 0U));
+  }
+
   /// The actual table storing the entries
   std::vector<Entry> table;
+  /// The density matrix flags of the entries (only used for density matrices)
+  std::vector<std::uint8_t> densityFlags;
   /// Dynamic bitset to mark valid entries
   std::vector<bool> valid;
   /// Statistics of the compute table
diff --git a/include/mqt-core/dd/Package.hpp b/include/mqt-core/dd/Package.hpp
index b23990b..ef89120 100644
--- a/include/mqt-core/dd/Package.hpp
+++ b/include/mqt-core/dd/Package.hpp
@@ -1251,7 +1251,7 @@ private:
     }
 
     auto e = makeDDNode(var, edge, generateDensityMatrix);
-    computeTable.insert(x.p, y.p, e);
+    computeTable.insert(x.p, y.p, e, generateDensityMatrix);
 
     e.w = e.w * rWeight;
     return e;
-- 
2.43.0


From 249a3e37a92fcd32fbcbb42779a21c9f652a9145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:44 +0000
Subject: [PATCH 016/142] fix: keep the flags of density matrix operands on
 skipped levels

---
 include/mqt-core/dd/Package.hpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/mqt-core/dd/Package.hpp b/include/mqt-core/dd/Package.hpp
index ef89120..0d4642f 100644
--- a/include/mqt-core/dd/Package.hpp
+++ b/include/mqt-core/dd/Package.hpp
@@ -837,8 +837,13 @@ public:
         dNode::applyDmChangesToNode(e1.p);
         dNode::applyDmChangesToNode(e2.p);
         edge[i] = add2(e1, e2, var - 1);
-        dNode::revertDmChangesToNode(e2.p);
-        dNode::revertDmChangesToNode(e1.p);
+        // If a level is skipped, the edge refers to the operand itself
+        if (e2.p != y.p) {
+          dNode::revertDmChangesToNode(e2.p);
+        }
+        if (e1.p != x.p) {
+          dNode::revertDmChangesToNode(e1.p);
+        }
       } else {
         edge[i] = add2(e1, e2, var - 1);
       }
@@ -1235,8 +1240,14 @@ private:
               dNode::revertDmChangesToNode(m.p);
               dNode::revertDmChangesToNode(edge[idx].p);
             }
-            // Undo modifications on density matrices
-            dEdge::revertDmChangesToEdges(e1, e2);
+            // Undo modifications on density matrices. If a level is skipped, the
+            // edge refers to the operand itself, which is still needed as is.
+            if (e1.p != x.p) {
+              dEdge::revertDmChangesToEdge(e1);
+            }
+            if (e2.p != y.p) {
+              dEdge::revertDmChangesToEdge(e2);
+            }
           } else {
             auto m = multiply2(e1, e2, v);
 
-- 
2.43.0


From 0c221dc687924eeefaa640dc654819d26a60461b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:44 +0000
Subject: [PATCH 017/142] fix: traces and measurements of density matrices with
 skipped levels

---
 include/mqt-core/dd/Package.hpp | 23 ++++++++++++++++++++---
 src/dd/Package.cpp              |  8 +++++---
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/include/mqt-core/dd/Package.hpp b/include/mqt-core/dd/Package.hpp
index 0d4642f..c54397e 100644
--- a/include/mqt-core/dd/Package.hpp
+++ b/include/mqt-core/dd/Package.hpp
@@ -1547,8 +1547,10 @@ public:
    */
   template <class Node>
   ComplexValue trace(const Edge<Node>& a, const std::size_t numQubits) {
-    if (a.isIdentity()) {
-      return static_cast<ComplexValue>(a.w);
+    if constexpr (std::is_same_v<Node, mNode>) {
+      if (a.isIdentity()) {
+        return static_cast<ComplexValue>(a.w);
+      }
     }
     const auto eliminate = std::vector<bool>(numQubits, true);
     return trace(a, eliminate, numQubits).w;
@@ -1588,7 +1590,8 @@ private:
    * mapped to the interval [0,1] (as opposed to the interval [0,2^N]).
    *
    * For density matrices, such normalization is not applied as the trace of
-   * density matrices is always 1 by definition.
+   * density matrices is always 1 by definition. Consequently, each eliminated
+   * level that is skipped in the DD contributes a factor of two.
    */
   template <class Node>
   CachedEdge<Node> trace(const Edge<Node>& a,
@@ -1599,6 +1602,20 @@ private:
       return CachedEdge<Node>::zero();
     }
 
+    if constexpr (std::is_same_v<Node, dNode>) {
+      // Account for the levels that are skipped on top of `a`
+      const std::size_t numLevels = a.isTerminal() ? 0U : a.p->v + 1U;
+      if (numLevels < level) {
+        using Diff = std::vector<bool>::difference_type;
+        const auto skipped = std::count(
+            eliminate.begin() + static_cast<Diff>(numLevels),
+            eliminate.begin() + static_cast<Diff>(level), true);
+        auto r = trace(a, eliminate, numLevels);
+        r.w = r.w * std::ldexp(1., static_cast<int>(skipped));
+        return r;
+      }
+    }
+
     // If `a` is the identity matrix or there is nothing left to eliminate,
     // then simply return `a`
     if (a.isIdentity() ||
diff --git a/src/dd/Package.cpp b/src/dd/Package.cpp
index d58680b..f1535ab 100644
--- a/src/dd/Package.cpp
+++ b/src/dd/Package.cpp
@@ -790,7 +790,9 @@ char Package::measureOneCollapsing(dEdge& e, const Qubit index,
                                    std::mt19937_64& mt) {
   char measuredResult = '0';
   dEdge::alignDensityEdge(e);
-  const auto nrQubits = e.p->v + 1U;
+  // The uppermost levels of the DD may be skipped. Hence, all traces are taken
+  // over all qubits of the package and are related to the trace of the state.
+  const auto totalTrace = trace(e, nqubits);
   dEdge::setDensityMatrixTrue(e);
 
   auto const measZeroDd = makeGateDD(MEAS_ZERO_MAT, index);
@@ -798,7 +800,7 @@ char Package::measureOneCollapsing(dEdge& e, const Qubit index,
   auto tmp0 = conjugateTranspose(measZeroDd);
   auto tmp1 = multiply(e, densityFromMatrixEdge(tmp0), false);
   auto tmp2 = multiply(densityFromMatrixEdge(measZeroDd), tmp1, true);
-  auto densityMatrixTrace = trace(tmp2, nrQubits);
+  auto densityMatrixTrace = trace(tmp2, nqubits) / totalTrace.r;
 
   std::uniform_real_distribution<fp> dist(0., 1.);
   if (const auto threshold = dist(mt); threshold > densityMatrixTrace.r) {
@@ -807,7 +809,7 @@ char Package::measureOneCollapsing(dEdge& e, const Qubit index,
     tmp1 = multiply(e, densityFromMatrixEdge(tmp0), false);
     tmp2 = multiply(densityFromMatrixEdge(measOneDd), tmp1, true);
     measuredResult = '1';
-    densityMatrixTrace = trace(tmp2, nrQubits);
+    densityMatrixTrace = trace(tmp2, nqubits) / totalTrace.r;
   }
 
   incRef(tmp2);
-- 
2.43.0


From 6022928f3313465e90027bb936418503018b2bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:44 +0000
Subject: [PATCH 018/142] fix: clear the density multiplication cache if matrix
 nodes are collected

---
 src/dd/Package.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dd/Package.cpp b/src/dd/Package.cpp
index f1535ab..a092040 100644
--- a/src/dd/Package.cpp
+++ b/src/dd/Package.cpp
@@ -132,6 +132,8 @@ bool Package::garbageCollect(bool force) {
     matrixVectorMultiplication.clear();
     matrixMatrixMultiplication.clear();
     stochasticNoiseOperationCache.clear();
+    // operations on density matrices involve matrix nodes
+    densityDensityMultiplication.clear();
   }
   // invalidate all compute tables involving density matrices if any density
   // matrix node has been collected
-- 
2.43.0


From 1caccef73c8778d414bd7117cc60200ce5a623f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:44 +0000
Subject: [PATCH 019/142] fix: density matrix edges visited twice lose their
 flags

---
 src/dd/Edge.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/dd/Edge.cpp b/src/dd/Edge.cpp
index 655378a..d7fd418 100644
--- a/src/dd/Edge.cpp
+++ b/src/dd/Edge.cpp
@@ -491,7 +491,9 @@ auto Edge<Node>::traverseMatrix(const std::complex<fp>& amp,
   const auto coords = {std::pair{i, j}, {i, y}, {x, j}, {x, y}};
   std::size_t k = 0U;
   for (const auto& [a, b] : coords) {
-    if (auto& e = p->e[k++]; !e.w.exactlyZero()) {
+    // Work on a copy of the edge so that the flags of the density matrix edge are
+    // kept for further visits (due to skipped levels)
+    if (auto e = p->e[k++]; !e.w.exactlyZero()) {
       if constexpr (std::is_same_v<Node, dNode>) {
         Edge<dNode>::applyDmChangesToEdge(e);
       }
@@ -540,7 +542,8 @@ auto Edge<Node>::getSparseProbabilityVectorStrKeys(const std::size_t numQubits,
 
   auto e = *this;
   Edge<dNode>::alignDensityEdge(e);
-  const auto nqubits = static_cast<std::size_t>(e.p->v) + 1U;
+  const auto nqubits =
+      e.isTerminal() ? numQubits : static_cast<std::size_t>(e.p->v) + 1U;
 
   auto probabilities = SparsePVecStrKeys{};
   e.traverseDiagonal(
-- 
2.43.0


From a7425b390867aab399aa3243a31fa0c356b8646f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:44 +0000
Subject: [PATCH 020/142] fix: deterministic noise on skipped levels and on
 operations without qubits

---
 src/dd/NoiseFunctionality.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/dd/NoiseFunctionality.cpp b/src/dd/NoiseFunctionality.cpp
index 754883a..f42d2b1 100644
--- a/src/dd/NoiseFunctionality.cpp
+++ b/src/dd/NoiseFunctionality.cpp
@@ -255,6 +255,9 @@ DeterministicNoiseFunctionality::DeterministicNoiseFunctionality(
 void DeterministicNoiseFunctionality::applyNoiseEffects(
     dEdge& originalEdge, const std::unique_ptr<qc::Operation>& qcOperation) {
   const auto usedQubits = qcOperation->getUsedQubits();
+  if (usedQubits.empty()) {
+    return; // e.g., a global phase
+  }
   dCachedEdge nodeAfterNoise = {};
   dEdge::applyDmChangesToEdge(originalEdge);
   nodeAfterNoise = applyNoiseEffects(originalEdge, usedQubits, false,
@@ -280,11 +283,11 @@ dCachedEdge DeterministicNoiseFunctionality::applyNoiseEffects(
   auto originalCopy = dEdge{originalEdge.p, Complex::one()};
   ArrayOfEdges newEdges{};
   const auto nextLevel = static_cast<dd::Qubit>(level - 1U);
-  if (originalEdge.isIdentity()) {
+  if (originalEdge.isIdentity() || originalEdge.p->v < nextLevel) {
+    // The level is skipped, i.e., it is an identity level
     newEdges[0] =
         applyNoiseEffects(originalCopy, usedQubits, firstPathEdge, nextLevel);
-    newEdges[3] =
-        applyNoiseEffects(originalCopy, usedQubits, firstPathEdge, nextLevel);
+    newEdges[3] = newEdges[0];
   } else {
     for (std::size_t i = 0; i < newEdges.size(); i++) {
       auto& successor = originalCopy.p->e[i];
-- 
2.43.0


From 2db148503a3068e2aae06dc1a92354cf60e1d76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:44 +0000
Subject: [PATCH 021/142] fix: amplitude damping matrix of multi-qubit gates

---
 src/dd/NoiseFunctionality.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dd/NoiseFunctionality.cpp b/src/dd/NoiseFunctionality.cpp
index f42d2b1..7f6d592 100644
--- a/src/dd/NoiseFunctionality.cpp
+++ b/src/dd/NoiseFunctionality.cpp
@@ -70,8 +70,8 @@ StochasticNoiseFunctionality::StochasticNoiseFunctionality(
       sqrtAmplitudeDampingProbability(std::sqrt(amplitudeDampingProb)),
       oneMinusSqrtAmplitudeDampingProbability(
           std::sqrt(1 - amplitudeDampingProb)),
-      sqrtAmplitudeDampingProbabilityMulti(std::sqrt(gateNoiseProbability) *
-                                           multiQubitGateFactor),
+      sqrtAmplitudeDampingProbabilityMulti(
+          std::sqrt(multiQubitGateFactor * amplitudeDampingProb)),
       oneMinusSqrtAmplitudeDampingProbabilityMulti(
           std::sqrt(1 - (multiQubitGateFactor * amplitudeDampingProb))),
       ampDampingTrue({0, sqrtAmplitudeDampingProbability, 0, 0}),
-- 
2.43.0


From ad0ed5e579c33242f4f290055bfdec9e6fbbf0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:44 +0000
Subject: [PATCH 022/142] fix: reuse the random draws in both amplitude damping
 branches

---
 src/dd/NoiseFunctionality.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/dd/NoiseFunctionality.cpp b/src/dd/NoiseFunctionality.cpp
index 7f6d592..fc26879 100644
--- a/src/dd/NoiseFunctionality.cpp
+++ b/src/dd/NoiseFunctionality.cpp
@@ -113,6 +113,9 @@ void StochasticNoiseFunctionality::applyNoiseOperation(
   const bool multiQubitOperation = targets.size() > 1;
 
   for (const auto& target : targets) {
+    // Both amplitude damping branches must be based on the same random draws
+    // for the other noise effects
+    auto branchGenerator = generator;
     auto stackedOperation = generateNoiseOperation(operation, target, generator,
                                                    false, multiQubitOperation);
     auto tmp = package->multiply(stackedOperation, state);
@@ -123,8 +126,9 @@ void StochasticNoiseFunctionality::applyNoiseOperation(
       // normalization constraint of decision diagrams the probability for
       // applying amplitude damping stands in the root edge weight, of the dd
       // after the noise has been applied
-      stackedOperation = generateNoiseOperation(operation, target, generator,
-                                                true, multiQubitOperation);
+      stackedOperation =
+          generateNoiseOperation(operation, target, branchGenerator, true,
+                                 multiQubitOperation);
       tmp = package->multiply(stackedOperation, state);
     }
     tmp.w = Complex::one();
-- 
2.43.0


From 0acb223c75a28a1b901306de42aaace1203dc8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:44 +0000
Subject: [PATCH 023/142] fix: do not share cached damping matrices between
 noise models

---
 src/dd/NoiseFunctionality.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dd/NoiseFunctionality.cpp b/src/dd/NoiseFunctionality.cpp
index fc26879..90e105e 100644
--- a/src/dd/NoiseFunctionality.cpp
+++ b/src/dd/NoiseFunctionality.cpp
@@ -145,6 +145,12 @@ void StochasticNoiseFunctionality::applyNoiseOperation(
 mEdge StochasticNoiseFunctionality::stackOperation(
     const mEdge& operation, const qc::Qubit target,
     const qc::OpType noiseOperation, const GateMatrix& matrix) const {
+  if (noiseOperation != qc::X && noiseOperation != qc::Y &&
+      noiseOperation != qc::Z) {
+    // The matrix depends on the damping probability of this instance and, thus,
+    // must not be cached in the package.
+    return package->multiply(package->makeGateDD(matrix, target), operation);
+  }
   if (const auto* op =
           package->stochasticNoiseOperationCache.lookup(noiseOperation, target);
       op != nullptr) {
-- 
2.43.0


From 8e57afbf89a52741f4d4d5e43931305ea6317f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:10 +0000
Subject: [PATCH 024/142] fix: Type checking must not modify declared types

---
 src/qasm3/passes/TypeCheckPass.cpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/qasm3/passes/TypeCheckPass.cpp b/src/qasm3/passes/TypeCheckPass.cpp
index 126c10d..382b767 100644
--- a/src/qasm3/passes/TypeCheckPass.cpp
+++ b/src/qasm3/passes/TypeCheckPass.cpp
@@ -25,6 +25,22 @@
 
 namespace qasm3::type_checking {
 
+namespace {
+// Types are shared with the declarations they stem from. Hence, a designator
+// must never be changed in place.
+InferredType withDesignator(const InferredType& inferred,
+                            const uint64_t designator) {
+  const auto type =
+      std::dynamic_pointer_cast<DesignatedType<uint64_t>>(inferred.type);
+  if (type == nullptr) {
+    throw TypeCheckError("Type does not allow designator");
+  }
+  const auto copy = std::make_shared<DesignatedType<uint64_t>>(*type);
+  copy->setDesignator(designator);
+  return InferredType{copy};
+}
+} // namespace
+
 InferredType TypeCheckPass::error(const std::string& msg,
                                   const std::shared_ptr<DebugInfo>& debugInfo) {
   std::cerr << "Type check error: " << msg << '\n';
@@ -208,8 +224,8 @@ InferredType TypeCheckPass::visitBinaryExpression(
       // coerce to float or signed int
       ty = rhs;
     }
-    ty.type->setDesignator(
-        std::max(lhs.type->getDesignator(), rhs.type->getDesignator()));
+    ty = withDesignator(ty, std::max(lhs.type->getDesignator(),
+                                     rhs.type->getDesignator()));
   } else if (lhs.type != rhs.type) {
     std::stringstream ss;
     ss << "Type mismatch in binary expression: ";
@@ -348,8 +364,7 @@ InferredType TypeCheckPass::visitIndexedIdentifier(
     return type;
   }
   // Assume that indexed access always results in a single element
-  type.type->setDesignator(1);
-  return type;
+  return withDesignator(type, 1);
 }
 
 InferredType TypeCheckPass::visitMeasureExpression(
-- 
2.43.0


From 4fcf8bd43d479972ccb13b6084595230182da5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:10 +0000
Subject: [PATCH 025/142] fix: Report unknown identifiers instead of
 dereferencing null in the type check

---
 src/qasm3/passes/TypeCheckPass.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/qasm3/passes/TypeCheckPass.cpp b/src/qasm3/passes/TypeCheckPass.cpp
index 382b767..7afbac3 100644
--- a/src/qasm3/passes/TypeCheckPass.cpp
+++ b/src/qasm3/passes/TypeCheckPass.cpp
@@ -182,7 +182,7 @@ void TypeCheckPass::visitAssignmentStatement(
     return;
   }
 
-  if (!idTy->second.type->fits(*exprTy.type)) {
+  if (!exprTy.isError && !idTy->second.type->fits(*exprTy.type)) {
     std::stringstream ss;
     ss << "Type mismatch in assignment. Expected '";
     ss << idTy->second.type->toString();
@@ -282,6 +282,9 @@ InferredType TypeCheckPass::visitBinaryExpression(
 InferredType TypeCheckPass::visitUnaryExpression(
     const std::shared_ptr<UnaryExpression> unaryExpression) {
   auto type = visit(unaryExpression->operand);
+  if (type.isError) {
+    return type;
+  }
 
   switch (unaryExpression->op) {
   case UnaryExpression::BitwiseNot:
@@ -360,7 +363,7 @@ InferredType TypeCheckPass::visitIndexedIdentifier(
     const std::shared_ptr<IndexedIdentifier> indexedIdentifier) {
   auto type = visitIdentifierExpression(
       std::make_shared<IdentifierExpression>(indexedIdentifier->identifier));
-  if (indexedIdentifier->indices.empty()) {
+  if (type.isError || indexedIdentifier->indices.empty()) {
     return type;
   }
   // Assume that indexed access always results in a single element
-- 
2.43.0


From 21169445d061bec1b55efc4cad8e2436ca7ba4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:10 +0000
Subject: [PATCH 026/142] fix: Control modifiers precede the controls of the
 gate they modify

---
 src/qasm3/Importer.cpp | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/qasm3/Importer.cpp b/src/qasm3/Importer.cpp
index 6256281..30c15f4 100644
--- a/src/qasm3/Importer.cpp
+++ b/src/qasm3/Importer.cpp
@@ -531,22 +531,9 @@ std::unique_ptr<qc::Operation> Importer::evaluateGateCall(
 
   // here we count the number of controls
   std::vector<std::pair<std::shared_ptr<GateOperand>, bool>> controls{};
-  // since standard gates may define a number of control targets, we first
-  // need to handle those
-  size_t nControls{gate->getNControls() + implicitControls};
-  if (targets.size() < nControls) {
-    throw CompilerError("Gate '" + identifier + "' takes " +
-                            std::to_string(nControls) + " controls, but only " +
-                            std::to_string(targets.size()) +
-                            " qubits were supplied.",
-                        gateCallStatement->debugInfo);
-  }
-
-  controls.reserve(nControls);
-  for (size_t i = 0; i < nControls; ++i) {
-    controls.emplace_back(targets[i], true);
-  }
-
+  // modifiers are applied to the gate as a whole. Hence, the controls they add
+  // precede the operands of the gate itself.
+  size_t nControls{0};
   bool invertOperation = false;
   for (const auto& modifier : gateCallStatement->modifiers) {
     if (auto ctrlModifier =
@@ -579,6 +566,22 @@ std::unique_ptr<qc::Operation> Importer::evaluateGateCall(
                           gateCallStatement->debugInfo);
     }
   }
+
+  // standard gates may define a number of control targets themselves
+  const size_t nGateControls = gate->getNControls() + implicitControls;
+  if (targets.size() < nControls + nGateControls) {
+    throw CompilerError("Gate '" + identifier + "' takes " +
+                            std::to_string(nControls + nGateControls) +
+                            " controls, but only " +
+                            std::to_string(targets.size()) +
+                            " qubits were supplied.",
+                        gateCallStatement->debugInfo);
+  }
+  for (size_t i = 0; i < nGateControls; ++i) {
+    controls.emplace_back(targets[nControls + i], true);
+  }
+  nControls += nGateControls;
+
   targets.erase(targets.begin(),
                 targets.begin() + static_cast<int64_t>(nControls));
 
-- 
2.43.0


From 06964d67a01c071bbb88988a94d26801e103ca43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:10 +0000
Subject: [PATCH 027/142] fix: Export the global phase to OpenQASM 3

---
 src/ir/QuantumComputation.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index b657de1..0cf5172 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -696,6 +696,12 @@ void QuantumComputation::dumpOpenQASM(std::ostream& of, bool openQASM3) const {
     }
   }
 
+  // OpenQASM 2 does not provide means to specify a global phase
+  if (openQASM3 && globalPhase != 0.) {
+    StandardOperation(Targets{}, GPhase, {globalPhase})
+        .dumpOpenQASM(of, qubitMap, bitMap, 0, openQASM3);
+  }
+
   for (const auto& op : ops) {
     op->dumpOpenQASM(of, qubitMap, bitMap, 0, openQASM3);
   }
-- 
2.43.0


From 962fd4b899edc0173c10fcc9dd0e7c34077efb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:10 +0000
Subject: [PATCH 028/142] fix: Emit the condition for every statement in
 OpenQASM 2

---
 .../operations/ClassicControlledOperation.cpp | 28 ++++++++++++-------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/ir/operations/ClassicControlledOperation.cpp b/src/ir/operations/ClassicControlledOperation.cpp
index 29aa9b2..e0434c6 100644
--- a/src/ir/operations/ClassicControlledOperation.cpp
+++ b/src/ir/operations/ClassicControlledOperation.cpp
@@ -21,6 +21,7 @@
 #include <cstdint>
 #include <memory>
 #include <ostream>
+#include <sstream>
 #include <stdexcept>
 #include <string>
 #include <utility>
@@ -131,24 +132,31 @@ void ClassicControlledOperation::dumpOpenQASM(
     std::ostream& of, const QubitIndexToRegisterMap& qubitMap,
     const BitIndexToRegisterMap& bitMap, const std::size_t indent,
     const bool openQASM3) const {
-  of << std::string(indent * OUTPUT_INDENT_SIZE, ' ');
-  of << "if (";
+  std::ostringstream condition{};
+  condition << std::string(indent * OUTPUT_INDENT_SIZE, ' ');
+  condition << "if (";
   if (controlRegister.has_value()) {
     assert(!controlBit.has_value());
-    of << controlRegister->getName() << " " << comparisonKind << " "
-       << expectedValue;
+    condition << controlRegister->getName() << " " << comparisonKind << " "
+              << expectedValue;
   }
   if (controlBit.has_value()) {
     assert(!controlRegister.has_value());
-    of << (expectedValue == 0 ? "!" : "") << bitMap.at(*controlBit).second;
+    condition << (expectedValue == 0 ? "!" : "")
+              << bitMap.at(*controlBit).second;
   }
-  of << ") ";
+  condition << ") ";
   if (openQASM3) {
-    of << "{\n";
+    of << condition.str() << "{\n";
+    op->dumpOpenQASM(of, qubitMap, bitMap, indent + 1, openQASM3);
+    of << std::string(indent * OUTPUT_INDENT_SIZE, ' ') << "}\n";
+    return;
   }
-  op->dumpOpenQASM(of, qubitMap, bitMap, indent + 1, openQASM3);
-  if (openQASM3) {
-    of << "}\n";
+  // OpenQASM 2 has no blocks. Hence, every statement needs its own condition.
+  std::stringstream statements{};
+  op->dumpOpenQASM(statements, qubitMap, bitMap, indent, openQASM3);
+  for (std::string statement; std::getline(statements, statement);) {
+    of << condition.str() << statement << "\n";
   }
 }
 
-- 
2.43.0


From 0999239f8a474fc14b72c5c76a9c9bfcc1ccb7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:31 +0000
Subject: [PATCH 029/142] fix: Export Peres gates as they are simulated

---
 src/ir/operations/StandardOperation.cpp | 34 ++++++++++---------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/src/ir/operations/StandardOperation.cpp b/src/ir/operations/StandardOperation.cpp
index e44b529..36611d9 100644
--- a/src/ir/operations/StandardOperation.cpp
+++ b/src/ir/operations/StandardOperation.cpp
@@ -281,25 +281,19 @@ void StandardOperation::dumpOpenQASM2(
   // safe the numbers of controls as a prefix to the operation name
   op << std::string(controls.size(), 'c');
 
-  const bool isSpecialGate = type == Peres || type == Peresdg;
-
-  if (!isSpecialGate) {
-    // apply X operations to negate the respective controls
-    for (const auto& c : controls) {
-      if (c.type == Control::Type::Neg) {
-        of << "x " << qubitMap.at(c.qubit).second << ";\n";
-      }
+  // apply X operations to negate the respective controls
+  for (const auto& c : controls) {
+    if (c.type == Control::Type::Neg) {
+      of << "x " << qubitMap.at(c.qubit).second << ";\n";
     }
   }
 
   dumpGateType(of, op, qubitMap);
 
-  if (!isSpecialGate) {
-    // apply X operations to negate the respective controls again
-    for (const auto& c : controls) {
-      if (c.type == Control::Type::Neg) {
-        of << "x " << qubitMap.at(c.qubit).second << ";\n";
-      }
+  // apply X operations to negate the respective controls again
+  for (const auto& c : controls) {
+    if (c.type == Control::Type::Neg) {
+      of << "x " << qubitMap.at(c.qubit).second << ";\n";
     }
   }
 }
@@ -439,28 +433,28 @@ void StandardOperation::dumpGateType(
     for (const auto& c : controls) {
       of << " " << qubitMap.at(c.qubit).second << ",";
     }
-    of << " " << qubitMap.at(targets[1]).second << ", "
-       << qubitMap.at(targets[0]).second << ";\n";
+    of << " " << qubitMap.at(targets[0]).second << ", "
+       << qubitMap.at(targets[1]).second << ";\n";
 
     of << op.str() << "x";
     for (const auto& c : controls) {
       of << " " << qubitMap.at(c.qubit).second << ",";
     }
-    of << " " << qubitMap.at(targets[1]).second << ";\n";
+    of << " " << qubitMap.at(targets[0]).second << ";\n";
     return;
   case Peresdg:
     of << op.str() << "x";
     for (const auto& c : controls) {
       of << " " << qubitMap.at(c.qubit).second << ",";
     }
-    of << " " << qubitMap.at(targets[1]).second << ";\n";
+    of << " " << qubitMap.at(targets[0]).second << ";\n";
 
     of << op.str() << "cx";
     for (const auto& c : controls) {
       of << " " << qubitMap.at(c.qubit).second << ",";
     }
-    of << " " << qubitMap.at(targets[1]).second << ", "
-       << qubitMap.at(targets[0]).second << ";\n";
+    of << " " << qubitMap.at(targets[0]).second << ", "
+       << qubitMap.at(targets[1]).second << ";\n";
     return;
   default:
     std::cerr << "gate type " << toString(type)
-- 
2.43.0


From 7529a11118b695bf31f9925edc6e74623381f686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:31 +0000
Subject: [PATCH 030/142] fix: Only abbreviate register operands that cover the
 whole register in order

---
 include/mqt-core/ir/operations/Operation.hpp | 15 ++++++++-----
 src/ir/operations/NonUnitaryOperation.cpp    | 23 +++++++++++---------
 src/ir/operations/StandardOperation.cpp      |  2 +-
 3 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/include/mqt-core/ir/operations/Operation.hpp b/include/mqt-core/ir/operations/Operation.hpp
index 746a0a4..3dbfa19 100644
--- a/include/mqt-core/ir/operations/Operation.hpp
+++ b/include/mqt-core/ir/operations/Operation.hpp
@@ -16,6 +16,7 @@
 #include "ir/operations/Control.hpp"
 #include "ir/operations/OpType.hpp"
 
+#include <algorithm>
 #include <cstring>
 #include <functional>
 #include <iostream>
@@ -37,11 +38,15 @@ protected:
   static constexpr size_t OUTPUT_INDENT_SIZE = 2;
 
   static bool isWholeQubitRegister(const QubitIndexToRegisterMap& regMap,
-                                   const Qubit start, const Qubit end) {
-    const auto& startReg = regMap.at(start).first;
-    const auto& endReg = regMap.at(end).first;
-    return startReg == endReg && startReg.getStartIndex() == start &&
-           endReg.getEndIndex() == end;
+                                   const std::vector<Qubit>& qubits) {
+    const auto& reg = regMap.at(qubits.front()).first;
+    if (qubits.size() != reg.getSize()) {
+      return false;
+    }
+    auto index = reg.getStartIndex();
+    return std::all_of(qubits.begin(), qubits.end(), [&index](const Qubit q) {
+      return q == index++;
+    });
   }
 
 public:
diff --git a/src/ir/operations/NonUnitaryOperation.cpp b/src/ir/operations/NonUnitaryOperation.cpp
index 9ba3aa3..176dc33 100644
--- a/src/ir/operations/NonUnitaryOperation.cpp
+++ b/src/ir/operations/NonUnitaryOperation.cpp
@@ -78,12 +78,15 @@ NonUnitaryOperation::print(std::ostream& os, const Permutation& permutation,
 }
 
 namespace {
-bool isWholeClassicalRegister(const BitIndexToRegisterMap& reg, const Bit start,
-                              const Bit end) {
-  const auto& startReg = reg.at(start).first;
-  const auto& endReg = reg.at(end).first;
-  return startReg == endReg && startReg.getStartIndex() == start &&
-         endReg.getEndIndex() == end;
+bool isWholeClassicalRegister(const BitIndexToRegisterMap& regMap,
+                              const std::vector<Bit>& bits) {
+  const auto& reg = regMap.at(bits.front()).first;
+  if (bits.size() != reg.getSize()) {
+    return false;
+  }
+  auto index = reg.getStartIndex();
+  return std::all_of(bits.begin(), bits.end(),
+                     [&index](const Bit b) { return b == index++; });
 }
 } // namespace
 
@@ -92,11 +95,11 @@ void NonUnitaryOperation::dumpOpenQASM(std::ostream& of,
                                        const BitIndexToRegisterMap& bitMap,
                                        std::size_t indent,
                                        bool openQASM3) const {
-  of << std::string(indent * OUTPUT_INDENT_SIZE, ' ');
+  const auto indentation = std::string(indent * OUTPUT_INDENT_SIZE, ' ');
 
-  if (isWholeQubitRegister(qubitMap, targets.front(), targets.back()) &&
-      (type != Measure ||
-       isWholeClassicalRegister(bitMap, classics.front(), classics.back()))) {
+  if (isWholeQubitRegister(qubitMap, targets) &&
+      (type != Measure || isWholeClassicalRegister(bitMap, classics))) {
+    of << indentation;
     if (type == Measure && openQASM3) {
       of << bitMap.at(classics.front()).first.getName() << " = ";
     }
diff --git a/src/ir/operations/StandardOperation.cpp b/src/ir/operations/StandardOperation.cpp
index 36611d9..a374a1f 100644
--- a/src/ir/operations/StandardOperation.cpp
+++ b/src/ir/operations/StandardOperation.cpp
@@ -474,7 +474,7 @@ void StandardOperation::dumpGateType(
   }
   // Print target qubits.
   if (!targets.empty() && type == Barrier &&
-      isWholeQubitRegister(qubitMap, targets.front(), targets.back())) {
+      isWholeQubitRegister(qubitMap, targets)) {
     of << " " << qubitMap.at(targets.front()).first.getName();
   } else {
     for (auto it = targets.begin(); it != targets.end();) {
-- 
2.43.0


From 846fb690959911d7ec7f2a1dc9834a35f5002970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:31 +0000
Subject: [PATCH 031/142] fix: Advance the classical bits when exporting
 measurements to OpenQASM 3

---
 src/ir/operations/NonUnitaryOperation.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ir/operations/NonUnitaryOperation.cpp b/src/ir/operations/NonUnitaryOperation.cpp
index 176dc33..1491084 100644
--- a/src/ir/operations/NonUnitaryOperation.cpp
+++ b/src/ir/operations/NonUnitaryOperation.cpp
@@ -114,9 +114,11 @@ void NonUnitaryOperation::dumpOpenQASM(std::ostream& of,
   auto classicsIt = classics.cbegin();
   for (const auto& q : targets) {
     const auto& qreg = qubitMap.at(q);
+    of << indentation;
     if (type == Measure && openQASM3) {
       const auto& creg = bitMap.at(*classicsIt);
       of << creg.second << " = ";
+      ++classicsIt;
     }
     of << toString(type) << " " << qreg.second;
     if (type == Measure && !openQASM3) {
-- 
2.43.0


From b5b0da3a3b244a79b651a6e80a98b01eedc69fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:59 +0000
Subject: [PATCH 032/142] fix: apply controls of global phase gates in DDs

---
 src/dd/Operations.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/dd/Operations.cpp b/src/dd/Operations.cpp
index e7e42f1..60297cb 100644
--- a/src/dd/Operations.cpp
+++ b/src/dd/Operations.cpp
@@ -154,6 +154,18 @@ MatrixDD getDD(const qc::Operation& op, Package& dd,
     if (inverse) {
       phase = -phase;
     }
+    auto controls = permutation.apply(op.getControls());
+    if (!controls.empty()) {
+      // a controlled global phase is a phase on the states selected by the
+      // controls
+      const auto control = *controls.begin();
+      controls.erase(controls.begin());
+      const auto value = std::polar(1., phase);
+      const auto matrix = control.type == qc::Control::Type::Pos
+                              ? GateMatrix{1, 0, 0, value}
+                              : GateMatrix{value, 0, 0, 1};
+      return dd.makeGateDD(matrix, controls, control.qubit);
+    }
     auto id = Package::makeIdent();
     id.w = dd.cn.lookup(std::cos(phase), std::sin(phase));
     return id;
-- 
2.43.0


From 41c30796569809a9588e00d63a63a0581a3c7e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:59 +0000
Subject: [PATCH 033/142] fix: let barriers without operands act on all qubits

---
 src/qasm3/Importer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/qasm3/Importer.cpp b/src/qasm3/Importer.cpp
index 30c15f4..82dbd95 100644
--- a/src/qasm3/Importer.cpp
+++ b/src/qasm3/Importer.cpp
@@ -876,6 +876,11 @@ void Importer::visitMeasureAssignment(
 
 void Importer::visitBarrierStatement(
     const std::shared_ptr<BarrierStatement> barrierStatement) {
+  if (barrierStatement->gates.empty()) {
+    // a barrier without operands acts on all qubits
+    qc->barrier();
+    return;
+  }
   std::vector<qc::Qubit> qubits{};
   for (const auto& gate : barrierStatement->gates) {
     translateGateOperand(gate, qubits, qc->getQuantumRegisters(),
-- 
2.43.0


From 1addde7e26d8b372818a5ff16ea0a698d3eb7192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:59 +0000
Subject: [PATCH 034/142] fix: reject recursive gate definitions in OpenQASM
 programs

---
 include/mqt-core/qasm3/Importer.hpp | 3 +++
 src/qasm3/Importer.cpp              | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/include/mqt-core/qasm3/Importer.hpp b/include/mqt-core/qasm3/Importer.hpp
index 2d4b69d..4ebdb92 100644
--- a/include/mqt-core/qasm3/Importer.hpp
+++ b/include/mqt-core/qasm3/Importer.hpp
@@ -91,6 +91,9 @@ private:
 
   std::map<std::string, std::shared_ptr<Gate>> gates;
 
+  /// The user-defined gates whose bodies are currently being expanded
+  std::vector<const Gate*> gateCallStack;
+
   bool openQASM2CompatMode{false};
 
   qc::Permutation initialLayout;
diff --git a/src/qasm3/Importer.cpp b/src/qasm3/Importer.cpp
index 82dbd95..c71368e 100644
--- a/src/qasm3/Importer.cpp
+++ b/src/qasm3/Importer.cpp
@@ -755,6 +755,11 @@ std::unique_ptr<qc::Operation> Importer::applyQuantumOperation(
     return op;
   }
   if (auto* compoundGate = dynamic_cast<CompoundGate*>(gate.get())) {
+    if (std::find(gateCallStack.begin(), gateCallStack.end(), compoundGate) !=
+        gateCallStack.end()) {
+      throw CompilerError("Gates must not be recursive.", debugInfo);
+    }
+    gateCallStack.emplace_back(compoundGate);
     constEvalPass.pushEnv();
 
     for (size_t i = 0; i < compoundGate->parameterNames.size(); ++i) {
@@ -826,6 +831,7 @@ std::unique_ptr<qc::Operation> Importer::applyQuantumOperation(
     }
 
     constEvalPass.popEnv();
+    gateCallStack.pop_back();
 
     if (op->getOps().size() == 1) {
       return std::move(op->getOps()[0]);
-- 
2.43.0


From ec7b9dcb7654b6b2a6b8b24e9e82ce6518fecfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:00 +0000
Subject: [PATCH 035/142] fix: determine number of operands of multi-controlled
 gates without modifiers

---
 src/qasm3/Importer.cpp | 80 ++++++++++++++++++++++--------------------
 1 file changed, 41 insertions(+), 39 deletions(-)

diff --git a/src/qasm3/Importer.cpp b/src/qasm3/Importer.cpp
index c71368e..96eeae7 100644
--- a/src/qasm3/Importer.cpp
+++ b/src/qasm3/Importer.cpp
@@ -491,44 +491,6 @@ std::unique_ptr<qc::Operation> Importer::evaluateGateCall(
     const std::vector<std::shared_ptr<Expression>>& parameters,
     std::vector<std::shared_ptr<GateOperand>> targets,
     const qc::QuantumRegisterMap& qregs) {
-  auto iter = gates.find(identifier);
-  std::shared_ptr<Gate> gate;
-  size_t implicitControls{0};
-
-  if (iter == gates.end()) {
-    if (identifier == "mcx" || identifier == "mcx_gray" ||
-        identifier == "mcx_vchain" || identifier == "mcx_recursive" ||
-        identifier == "mcphase") {
-      // we create a temp gate definition for these gates
-      gate = getMcGateDefinition(identifier, gateCallStatement->operands.size(),
-                                 gateCallStatement->debugInfo);
-    } else if (openQASM2CompatMode) {
-      auto [updatedIdentifier, nControls] =
-          parseGateIdentifierCompatMode(identifier);
-
-      iter = gates.find(updatedIdentifier);
-      if (iter == gates.end()) {
-        throw CompilerError("Usage of unknown gate '" + identifier + "'.",
-                            gateCallStatement->debugInfo);
-      }
-      gate = iter->second;
-      implicitControls = nControls;
-    } else {
-      throw CompilerError("Usage of unknown gate '" + identifier + "'.",
-                          gateCallStatement->debugInfo);
-    }
-  } else {
-    gate = iter->second;
-  }
-
-  if (gate->getNParameters() != parameters.size()) {
-    throw CompilerError(
-        "Gate '" + identifier + "' takes " +
-            std::to_string(gate->getNParameters()) + " parameters, but " +
-            std::to_string(parameters.size()) + " were supplied.",
-        gateCallStatement->debugInfo);
-  }
-
   // here we count the number of controls
   std::vector<std::pair<std::shared_ptr<GateOperand>, bool>> controls{};
   // modifiers are applied to the gate as a whole. Hence, the controls they add
@@ -567,6 +529,44 @@ std::unique_ptr<qc::Operation> Importer::evaluateGateCall(
     }
   }
 
+  auto iter = gates.find(identifier);
+  std::shared_ptr<Gate> gate;
+  size_t implicitControls{0};
+
+  if (iter == gates.end()) {
+    if (identifier == "mcx" || identifier == "mcx_gray" ||
+        identifier == "mcx_vchain" || identifier == "mcx_recursive" ||
+        identifier == "mcphase") {
+      // we create a temp gate definition for these gates
+      gate = getMcGateDefinition(identifier, targets.size() - nControls,
+                                 gateCallStatement->debugInfo);
+    } else if (openQASM2CompatMode) {
+      auto [updatedIdentifier, nPrefixed] =
+          parseGateIdentifierCompatMode(identifier);
+
+      iter = gates.find(updatedIdentifier);
+      if (iter == gates.end()) {
+        throw CompilerError("Usage of unknown gate '" + identifier + "'.",
+                            gateCallStatement->debugInfo);
+      }
+      gate = iter->second;
+      implicitControls = nPrefixed;
+    } else {
+      throw CompilerError("Usage of unknown gate '" + identifier + "'.",
+                          gateCallStatement->debugInfo);
+    }
+  } else {
+    gate = iter->second;
+  }
+
+  if (gate->getNParameters() != parameters.size()) {
+    throw CompilerError(
+        "Gate '" + identifier + "' takes " +
+            std::to_string(gate->getNParameters()) + " parameters, but " +
+            std::to_string(parameters.size()) + " were supplied.",
+        gateCallStatement->debugInfo);
+  }
+
   // standard gates may define a number of control targets themselves
   const size_t nGateControls = gate->getNControls() + implicitControls;
   if (targets.size() < nControls + nGateControls) {
@@ -705,7 +705,9 @@ Importer::getMcGateDefinition(const std::string& identifier, size_t operandSize,
   std::vector<std::shared_ptr<GateOperand>> operands;
   size_t nTargets = operandSize;
   if (identifier == "mcx_vchain") {
-    nTargets -= (nTargets + 1) / 2 - 2;
+    if (nTargets > 2) {
+      nTargets -= (nTargets + 1) / 2 - 2;
+    }
   } else if (identifier == "mcx_recursive" && nTargets > 5) {
     nTargets -= 1;
   }
-- 
2.43.0


From cd15e6b231a9752d31ee28a955f7939abfe20aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:00 +0000
Subject: [PATCH 036/142] fix: only treat controlled standard gates as
 redeclaration in OpenQASM 2

---
 src/qasm3/Importer.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/qasm3/Importer.cpp b/src/qasm3/Importer.cpp
index 96eeae7..05b64ad 100644
--- a/src/qasm3/Importer.cpp
+++ b/src/qasm3/Importer.cpp
@@ -430,7 +430,12 @@ void Importer::visitGateStatement(
 
   if (openQASM2CompatMode) {
     // we need to check if this is a standard gate
-    identifier = parseGateIdentifierCompatMode(identifier).first;
+    const auto stripped = parseGateIdentifierCompatMode(identifier).first;
+    if (const auto gate = gates.find(stripped);
+        gate != gates.end() &&
+        std::dynamic_pointer_cast<StandardGate>(gate->second) != nullptr) {
+      identifier = stripped;
+    }
   }
 
   if (auto prevDeclaration = gates.find(identifier);
-- 
2.43.0


From 0099b9dcd02446d20b27b8567b80ac8030bd4bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:00 +0000
Subject: [PATCH 037/142] fix: handle comparisons in conditions of OpenQASM
 programs

---
 src/qasm3/Importer.cpp | 60 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 51 insertions(+), 9 deletions(-)

diff --git a/src/qasm3/Importer.cpp b/src/qasm3/Importer.cpp
index 05b64ad..f61053f 100644
--- a/src/qasm3/Importer.cpp
+++ b/src/qasm3/Importer.cpp
@@ -190,6 +190,24 @@ void Importer::translateBitOperand(
   bits.emplace_back(creg.getStartIndex() + index);
 }
 
+namespace {
+// a < b is equivalent to b > a
+qc::ComparisonKind getMirroredComparisonKind(const qc::ComparisonKind kind) {
+  switch (kind) {
+  case qc::ComparisonKind::Lt:
+    return qc::ComparisonKind::Gt;
+  case qc::ComparisonKind::Leq:
+    return qc::ComparisonKind::Geq;
+  case qc::ComparisonKind::Gt:
+    return qc::ComparisonKind::Lt;
+  case qc::ComparisonKind::Geq:
+    return qc::ComparisonKind::Leq;
+  default:
+    return kind;
+  }
+}
+} // namespace
+
 std::variant<std::pair<qc::Bit, bool>,
              std::tuple<qc::ClassicalRegister, qc::ComparisonKind, uint64_t>>
 Importer::translateCondition(
@@ -198,7 +216,7 @@ Importer::translateCondition(
   if (const auto binaryExpression =
           std::dynamic_pointer_cast<BinaryExpression>(condition);
       binaryExpression != nullptr) {
-    const auto comparisonKind = getComparisonKind(binaryExpression->op);
+    auto comparisonKind = getComparisonKind(binaryExpression->op);
     if (!comparisonKind) {
       throw CompilerError("Unsupported comparison operator.", debugInfo);
     }
@@ -225,9 +243,17 @@ Importer::translateCondition(
         lhsIsIdentifier ? std::dynamic_pointer_cast<IndexedIdentifier>(lhs)
                         : std::dynamic_pointer_cast<IndexedIdentifier>(rhs);
     const auto& identifier = indexedIdentifier->identifier;
-    const auto val = lhsIsIdentifier
-                         ? std::dynamic_pointer_cast<Constant>(rhs)->getUInt()
-                         : std::dynamic_pointer_cast<Constant>(lhs)->getUInt();
+    const auto constant =
+        std::dynamic_pointer_cast<Constant>(lhsIsIdentifier ? rhs : lhs);
+    if (!constant->isUInt() || constant->isBool()) {
+      throw CompilerError("Only unsigned integer constants are supported in "
+                          "conditions.",
+                          debugInfo);
+    }
+    const auto val = constant->getUInt();
+    if (!lhsIsIdentifier) {
+      comparisonKind = getMirroredComparisonKind(*comparisonKind);
+    }
 
     const auto creg = qc->getClassicalRegisters().find(identifier);
     if (creg == qc->getClassicalRegisters().end()) {
@@ -235,16 +261,29 @@ Importer::translateCondition(
                               identifier + "' in condition.",
                           debugInfo);
     }
+    if (!indexedIdentifier->indices.empty()) {
+      const bool isEquality = *comparisonKind == qc::ComparisonKind::Eq;
+      if ((!isEquality && *comparisonKind != qc::ComparisonKind::Neq) ||
+          val > 1) {
+        throw CompilerError("Bits may only be compared to 0 or 1 for equality.",
+                            debugInfo);
+      }
+      std::vector<qc::Bit> bits{};
+      translateBitOperand(indexedIdentifier, bits, debugInfo);
+      return std::pair{bits[0], isEquality == (val == 1)};
+    }
     return std::tuple{creg->second, *comparisonKind, val};
   }
   if (const auto unaryExpression =
           std::dynamic_pointer_cast<UnaryExpression>(condition);
       unaryExpression != nullptr) {
-    // This should already be caught by the type checker.
-    assert(unaryExpression->op == UnaryExpression::LogicalNot ||
-           unaryExpression->op == UnaryExpression::BitwiseNot);
     const auto& indexedIdentifier =
         std::dynamic_pointer_cast<IndexedIdentifier>(unaryExpression->operand);
+    if (indexedIdentifier == nullptr ||
+        (unaryExpression->op != UnaryExpression::LogicalNot &&
+         unaryExpression->op != UnaryExpression::BitwiseNot)) {
+      throw CompilerError("Only bits may be negated in conditions.", debugInfo);
+    }
     std::vector<qc::Bit> bits{};
     translateBitOperand(indexedIdentifier, bits, debugInfo);
     // This should already be caught by the type checker.
@@ -254,8 +293,11 @@ Importer::translateCondition(
   // must be a single bit at this point
   const auto& indexedIdentifier =
       std::dynamic_pointer_cast<IndexedIdentifier>(condition);
-  // should also be caught by the type checker
-  assert(indexedIdentifier != nullptr);
+  if (indexedIdentifier == nullptr) {
+    throw CompilerError("Only bits and comparisons of classical registers are "
+                        "supported in conditions.",
+                        debugInfo);
+  }
   std::vector<qc::Bit> bits{};
   translateBitOperand(indexedIdentifier, bits, debugInfo);
   // This should already be caught by the type checker.
-- 
2.43.0


From ae66a5f26a58bd6dfddd06511c76acb1238249ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:17 +0000
Subject: [PATCH 038/142] fix: reject operands on empty registers in OpenQASM
 programs

---
 src/qasm3/Importer.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/qasm3/Importer.cpp b/src/qasm3/Importer.cpp
index f61053f..e880551 100644
--- a/src/qasm3/Importer.cpp
+++ b/src/qasm3/Importer.cpp
@@ -121,6 +121,11 @@ void Importer::translateGateOperand(
     throw CompilerError("Usage of unknown quantum register.", debugInfo);
   }
   const auto& qreg = qregIterator->second;
+  if (qreg.getSize() == 0) {
+    throw CompilerError("Usage of empty quantum register '" +
+                            indexedIdentifier->identifier + "'.",
+                        debugInfo);
+  }
 
   // full register
   if (indexedIdentifier->indices.empty()) {
@@ -135,7 +140,7 @@ void Importer::translateGateOperand(
                         debugInfo);
   }
   const auto indexOperator = indexedIdentifier->indices[0];
-  if (indexOperator->indexExpressions.size() > 1) {
+  if (indexOperator->indexExpressions.size() != 1) {
     throw CompilerError("Only single index expressions are supported.",
                         debugInfo);
   }
@@ -175,7 +180,7 @@ void Importer::translateBitOperand(
                         debugInfo);
   }
   const auto& indexExpressions = indices[0]->indexExpressions;
-  if (indexExpressions.size() > 1) {
+  if (indexExpressions.size() != 1) {
     throw CompilerError("Only single index expressions are supported.",
                         debugInfo);
   }
@@ -866,9 +871,6 @@ std::unique_ptr<qc::Operation> Importer::applyQuantumOperation(
             evaluateGateCall(gateCallStatement, gateCallStatement->identifier,
                              gateCallStatement->arguments,
                              gateCallStatement->operands, nestedQubits);
-        if (nestedOp == nullptr) {
-          return nullptr;
-        }
         op->getOps().emplace_back(std::move(nestedOp));
       } else {
         throw CompilerError("Unhandled quantum statement.", debugInfo);
-- 
2.43.0


From 35dff682f8be4208440d5042b92f315b87a3e0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:18 +0000
Subject: [PATCH 039/142] fix: divide real numbers in OpenQASM 2 programs

---
 include/mqt-core/qasm3/passes/ConstEvalPass.hpp |  5 +++++
 src/qasm3/Importer.cpp                          |  1 +
 src/qasm3/passes/ConstEvalPass.cpp              | 12 ++++++++++++
 3 files changed, 18 insertions(+)

diff --git a/include/mqt-core/qasm3/passes/ConstEvalPass.hpp b/include/mqt-core/qasm3/passes/ConstEvalPass.hpp
index 333762b..c4a3c2b 100644
--- a/include/mqt-core/qasm3/passes/ConstEvalPass.hpp
+++ b/include/mqt-core/qasm3/passes/ConstEvalPass.hpp
@@ -54,6 +54,7 @@ class ConstEvalPass final
       public ExpressionVisitor<std::optional<ConstEvalValue>>,
       public TypeVisitor<std::shared_ptr<Expression>> {
   NestedEnvironment<ConstEvalValue> env;
+  bool realDivision = false;
 
 public:
   ConstEvalPass() = default;
@@ -69,6 +70,10 @@ public:
 
   void processStatement(Statement& statement) override;
 
+  /// Sets whether the quotient of integers is a real number. While OpenQASM 3
+  /// has an integer division, expressions in OpenQASM 2 are real-valued.
+  void setRealDivision(const bool value) { realDivision = value; }
+
   void pushEnv() { env.push(); }
   void popEnv() { env.pop(); }
 
diff --git a/src/qasm3/Importer.cpp b/src/qasm3/Importer.cpp
index e880551..d61cbf7 100644
--- a/src/qasm3/Importer.cpp
+++ b/src/qasm3/Importer.cpp
@@ -362,6 +362,7 @@ void Importer::visitVersionDeclaration(
     const std::shared_ptr<VersionDeclaration> versionDeclaration) {
   if (versionDeclaration->version < 3) {
     openQASM2CompatMode = true;
+    constEvalPass.setRealDivision(true);
   }
 }
 
diff --git a/src/qasm3/passes/ConstEvalPass.cpp b/src/qasm3/passes/ConstEvalPass.cpp
index 888bccc..dfaba80 100644
--- a/src/qasm3/passes/ConstEvalPass.cpp
+++ b/src/qasm3/passes/ConstEvalPass.cpp
@@ -446,6 +446,18 @@ std::optional<ConstEvalValue> ConstEvalPass::visitBinaryExpression(
         ".");
   }
 
+  // Some operations on integers yield real numbers.
+  if ((lhsVal->type == ConstEvalValue::Type::ConstInt ||
+       lhsVal->type == ConstEvalValue::Type::ConstUint) &&
+      ((binaryExpression->op == BinaryExpression::Divide && realDivision) ||
+       (binaryExpression->op == BinaryExpression::Power &&
+        rhsVal->type == ConstEvalValue::Type::ConstInt &&
+        std::get<0>(rhsVal->value) < 0))) {
+    return evalFloatExpression(binaryExpression->op,
+                               lhsVal->toExpr()->asFP(),
+                               rhsVal->toExpr()->asFP());
+  }
+
   // If we are operating on two types with different width, coerce to the wider.
   size_t const width = std::max(lhsVal->width, rhsVal->width);
 
-- 
2.43.0


From 391bda225d31087e92d4c0088dd1bc7bc7c9fc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:18 +0000
Subject: [PATCH 040/142] fix: apply functions to integers in OpenQASM programs

---
 src/qasm3/passes/ConstEvalPass.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/qasm3/passes/ConstEvalPass.cpp b/src/qasm3/passes/ConstEvalPass.cpp
index dfaba80..07953ed 100644
--- a/src/qasm3/passes/ConstEvalPass.cpp
+++ b/src/qasm3/passes/ConstEvalPass.cpp
@@ -487,6 +487,23 @@ std::optional<ConstEvalValue> ConstEvalPass::visitUnaryExpression(
     return std::nullopt;
   }
 
+  // Integers implicitly convert to real numbers in functions.
+  switch (unaryExpression->op) {
+  case UnaryExpression::Sin:
+  case UnaryExpression::Cos:
+  case UnaryExpression::Tan:
+  case UnaryExpression::Exp:
+  case UnaryExpression::Ln:
+  case UnaryExpression::Sqrt:
+    if (val->type == ConstEvalValue::Type::ConstInt ||
+        val->type == ConstEvalValue::Type::ConstUint) {
+      val = ConstEvalValue{val->toExpr()->asFP()};
+    }
+    break;
+  default:
+    break;
+  }
+
   // For each unary operator, we need to check the type of the operand and
   // determine whether the operation is valid.
   switch (unaryExpression->op) {
-- 
2.43.0


From f9ddfed15e4aaeb906acf020368f1d076d7a4d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:18 +0000
Subject: [PATCH 041/142] fix: avoid undefined arithmetic in constant
 evaluation

---
 src/qasm3/passes/ConstEvalPass.cpp | 57 ++++++++++++++++++++++--------
 1 file changed, 43 insertions(+), 14 deletions(-)

diff --git a/src/qasm3/passes/ConstEvalPass.cpp b/src/qasm3/passes/ConstEvalPass.cpp
index 07953ed..498761a 100644
--- a/src/qasm3/passes/ConstEvalPass.cpp
+++ b/src/qasm3/passes/ConstEvalPass.cpp
@@ -28,20 +28,38 @@
 
 namespace qasm3::const_eval {
 namespace {
-template <typename T> T power(T base, T exponent) {
-  if (exponent == 0) {
-    return 1;
+uint64_t checkedMultiply(const uint64_t lhs, const uint64_t rhs) {
+  if (rhs != 0 && lhs > std::numeric_limits<uint64_t>::max() / rhs) {
+    throw ConstEvalError("Integer overflow in constant evaluation.");
   }
+  return lhs * rhs;
+}
 
-  T result = 1;
-  for (T i = 0; i < exponent; ++i) {
-    if (result > std::numeric_limits<T>::max() / base) {
-      throw ConstEvalError("Integer overflow in constant evaluation.");
+// computes the power by repeatedly squaring the base
+uint64_t power(uint64_t base, uint64_t exponent) {
+  uint64_t result = 1;
+  while (exponent > 0) {
+    if (exponent % 2 == 1) {
+      result = checkedMultiply(result, base);
+    }
+    exponent /= 2;
+    if (exponent > 0) {
+      base = checkedMultiply(base, base);
     }
-    result *= base;
   }
   return result;
 }
+
+int64_t power(const int64_t base, const uint64_t exponent) {
+  const auto magnitude =
+      power(base < 0 ? 0 - static_cast<uint64_t>(base) : static_cast<uint64_t>(base),
+            exponent);
+  if (magnitude > static_cast<uint64_t>(std::numeric_limits<int64_t>::max())) {
+    throw ConstEvalError("Integer overflow in constant evaluation.");
+  }
+  const auto result = static_cast<int64_t>(magnitude);
+  return base < 0 && exponent % 2 == 1 ? -result : result;
+}
 } // namespace
 
 void ConstEvalPass::processStatement(Statement& statement) {
@@ -169,6 +187,15 @@ template <typename T> int64_t castToWidth(const int64_t value) {
   return static_cast<int64_t>(static_cast<T>(value));
 }
 
+void checkDivision(const int64_t lhs, const int64_t rhs, const bool isSigned) {
+  if (rhs == 0) {
+    throw ConstEvalError("Division by zero in constant evaluation.");
+  }
+  if (isSigned && rhs == -1 && lhs == std::numeric_limits<int64_t>::min()) {
+    throw ConstEvalError("Integer overflow in constant evaluation.");
+  }
+}
+
 ConstEvalValue evalIntExpression(BinaryExpression::Op op, int64_t lhs,
                                  int64_t rhs, size_t width, bool isSigned) {
   auto lhsU = static_cast<uint64_t>(lhs);
@@ -181,7 +208,7 @@ ConstEvalValue evalIntExpression(BinaryExpression::Op op, int64_t lhs,
   switch (op) {
   case BinaryExpression::Power:
     if (isSigned) {
-      result.value = power(lhs, rhs);
+      result.value = power(lhs, rhsU);
     } else {
       result.value = static_cast<int64_t>(power(lhsU, rhsU));
     }
@@ -191,15 +218,16 @@ ConstEvalValue evalIntExpression(BinaryExpression::Op op, int64_t lhs,
     break;
   case BinaryExpression::Subtract:
     result.value = static_cast<int64_t>(lhsU - rhsU);
+    if (lhsU < rhsU) {
+      // the difference of unsigned integers may very well be negative
+      result.type = ConstEvalValue::Type::ConstInt;
+    }
     break;
   case BinaryExpression::Multiply:
-    if (isSigned) {
-      result.value = lhs * rhs;
-    } else {
-      result.value = static_cast<int64_t>(lhsU * rhsU);
-    }
+    result.value = static_cast<int64_t>(lhsU * rhsU);
     break;
   case BinaryExpression::Divide:
+    checkDivision(lhs, rhs, isSigned);
     if (isSigned) {
       result.value = lhs / rhs;
     } else {
@@ -207,6 +235,7 @@ ConstEvalValue evalIntExpression(BinaryExpression::Op op, int64_t lhs,
     }
     break;
   case BinaryExpression::Modulo:
+    checkDivision(lhs, rhs, isSigned);
     if (isSigned) {
       result.value = lhs % rhs;
     } else {
-- 
2.43.0


From 01c78ac84f4c4a226c8412c8671c8d13c41fe8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:18 +0000
Subject: [PATCH 042/142] fix: reject unterminated strings in OpenQASM programs

---
 include/mqt-core/qasm3/Scanner.hpp | 3 ++-
 src/qasm3/Scanner.cpp              | 7 ++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/mqt-core/qasm3/Scanner.hpp b/include/mqt-core/qasm3/Scanner.hpp
index e4c864e..cbf07c4 100644
--- a/include/mqt-core/qasm3/Scanner.hpp
+++ b/include/mqt-core/qasm3/Scanner.hpp
@@ -49,7 +49,8 @@ class Scanner {
 
   std::string consumeNumberLiteral(uint8_t base);
 
-  static uint64_t parseIntegerLiteral(const std::string& str, uint8_t base);
+  static std::optional<uint64_t> parseIntegerLiteral(const std::string& str,
+                                                     uint8_t base);
 
   Token consumeNumberLiteral();
 
diff --git a/src/qasm3/Scanner.cpp b/src/qasm3/Scanner.cpp
index 3aa87f8..cf12fc9 100644
--- a/src/qasm3/Scanner.cpp
+++ b/src/qasm3/Scanner.cpp
@@ -328,13 +328,18 @@ Token Scanner::consumeString() {
   nextCh();
 
   std::stringstream content;
-  while (ch != delim) {
+  while (ch != delim && ch != 0) {
     content << ch;
     nextCh();
   }
 
   t.str = content.str();
 
+  if (ch != delim) {
+    error("unterminated string");
+    t.kind = Token::Kind::None;
+    return t;
+  }
   expect(delim);
 
   t.endCol = col;
-- 
2.43.0


From 17b5c1f0f9f65ac017db5b47ada61b17cda98b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:18 +0000
Subject: [PATCH 043/142] fix: only interpret layout comments as such in
 OpenQASM programs

---
 src/qasm3/Parser.cpp  |  11 +++--
 src/qasm3/Scanner.cpp | 107 ++++++++++++++++++++++++++----------------
 2 files changed, 74 insertions(+), 44 deletions(-)

diff --git a/src/qasm3/Parser.cpp b/src/qasm3/Parser.cpp
index 8b8698b..fbb4fbf 100644
--- a/src/qasm3/Parser.cpp
+++ b/src/qasm3/Parser.cpp
@@ -23,7 +23,6 @@
 #include <istream>
 #include <memory>
 #include <optional>
-#include <regex>
 #include <sstream>
 #include <stdexcept>
 #include <string>
@@ -900,12 +899,16 @@ std::shared_ptr<Expression> Parser::parseTypeDesignator() {
 
 qc::Permutation Parser::parsePermutation(std::string s) {
   qc::Permutation permutation{};
-  static const auto QUBIT_REGEX = std::regex("\\d+");
+  static constexpr auto DIGITS = "0123456789";
   qc::Qubit logicalQubit = 0;
-  for (std::smatch m; std::regex_search(s, m, QUBIT_REGEX); s = m.suffix()) {
-    auto physicalQubit = static_cast<qc::Qubit>(std::stoul(m.str()));
+  auto begin = s.find_first_of(DIGITS);
+  while (begin != std::string::npos) {
+    const auto end = s.find_first_not_of(DIGITS, begin);
+    auto physicalQubit =
+        static_cast<qc::Qubit>(std::stoul(s.substr(begin, end - begin)));
     permutation.emplace(physicalQubit, logicalQubit);
     ++logicalQubit;
+    begin = s.find_first_of(DIGITS, end);
   }
   return permutation;
 }
diff --git a/src/qasm3/Scanner.cpp b/src/qasm3/Scanner.cpp
index cf12fc9..c82bf49 100644
--- a/src/qasm3/Scanner.cpp
+++ b/src/qasm3/Scanner.cpp
@@ -15,11 +15,12 @@
 
 #include <algorithm>
 #include <cctype>
+#include <cstddef>
 #include <cstdint>
 #include <iostream>
 #include <istream>
+#include <limits>
 #include <optional>
-#include <regex>
 #include <sstream>
 #include <stdexcept>
 #include <string>
@@ -53,55 +54,81 @@ char Scanner::peek() const {
   return 0;
 }
 
-std::optional<Token> Scanner::consumeWhitespaceAndComments() {
-  while (isSpace(ch)) {
-    nextCh();
+namespace {
+// A comment that solely consists of the given letter and a list of numbers,
+// e.g., `// i 0 2 1`.
+bool isPermutationComment(const std::string& comment, const char letter) {
+  const auto isBlank = [](const char c) {
+    return c == ' ' || c == '\t' || c == '\r';
+  };
+  size_t pos = 2; // skip the leading `//`
+  while (pos < comment.size() && isBlank(comment[pos])) {
+    ++pos;
   }
-  if (ch == '/' && peek() == '/') {
-    Token t(line, col);
-    // consume until newline
-    std::stringstream content;
-    while (ch != '\n' && ch != 0) {
-      content << ch;
-      nextCh();
+  if (pos == comment.size() || comment[pos] != letter) {
+    return false;
+  }
+  ++pos;
+  if (pos == comment.size() || !isBlank(comment[pos])) {
+    return false;
+  }
+  bool hasNumber = false;
+  for (; pos < comment.size(); ++pos) {
+    if (comment[pos] >= '0' && comment[pos] <= '9') {
+      hasNumber = true;
+    } else if (!isBlank(comment[pos])) {
+      return false;
     }
-    if (ch == '\n') {
+  }
+  return hasNumber;
+}
+} // namespace
+
+std::optional<Token> Scanner::consumeWhitespaceAndComments() {
+  while (true) {
+    while (isSpace(ch)) {
       nextCh();
     }
+    if (ch == '/' && peek() == '/') {
+      Token t(line, col);
 
-    static const auto INITIAL_LAYOUT_REGEX = std::regex("i (\\d+ )*(\\d+)");
-    static const auto OUTPUT_PERMUTATION_REGEX = std::regex("o (\\d+ )*(\\d+)");
+      // consume until newline
+      std::stringstream content;
+      while (ch != '\n' && ch != 0) {
+        content << ch;
+        nextCh();
+      }
+      if (ch == '\n') {
+        nextCh();
+      }
+      t.str = content.str();
 
-    const auto str = content.str();
-    if (std::regex_search(str, INITIAL_LAYOUT_REGEX)) {
-      t.kind = Token::Kind::InitialLayout;
-    } else if (std::regex_search(str, OUTPUT_PERMUTATION_REGEX)) {
-      t.kind = Token::Kind::OutputPermutation;
-    } else {
-      return consumeWhitespaceAndComments();
-    }
+      if (isPermutationComment(t.str, 'i')) {
+        t.kind = Token::Kind::InitialLayout;
+      } else if (isPermutationComment(t.str, 'o')) {
+        t.kind = Token::Kind::OutputPermutation;
+      } else {
+        continue;
+      }
 
-    t.str = content.str();
-    t.endCol = col;
-    t.endLine = line;
-    return t;
-  }
-  if (ch == '/' && peek() == '*') {
-    // consume /*
-    nextCh();
-    nextCh();
-    while (ch != 0 && (ch != '*' || peek() != '/')) {
+      t.endCol = col;
+      t.endLine = line;
+      return t;
+    }
+    if (ch == '/' && peek() == '*') {
+      // consume /*
+      nextCh();
       nextCh();
+      while (ch != 0 && (ch != '*' || peek() != '/')) {
+        nextCh();
+      }
+      // consume */
+      expect('*');
+      expect('/');
+      continue;
     }
-    // consume */
-    expect('*');
-    expect('/');
-
-    // tail calls should be optimized away
-    return consumeWhitespaceAndComments();
+    return {};
   }
-
-  return {};
 }
 
 Token Scanner::consumeName() {
-- 
2.43.0


From dd18ff2d237d1556c938c4316ae453c65e0949fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:18 +0000
Subject: [PATCH 044/142] fix: handle uppercase hexadecimal digits and
 overflows in integer literals

---
 src/qasm3/Scanner.cpp | 57 +++++++++++++++++++++----------------------
 1 file changed, 28 insertions(+), 29 deletions(-)

diff --git a/src/qasm3/Scanner.cpp b/src/qasm3/Scanner.cpp
index c82bf49..f4ca32d 100644
--- a/src/qasm3/Scanner.cpp
+++ b/src/qasm3/Scanner.cpp
@@ -192,17 +192,17 @@ std::string Scanner::consumeNumberLiteral(const uint8_t base) {
   return ss.str();
 }
 
-uint64_t Scanner::parseIntegerLiteral(const std::string& str,
-                                      const uint8_t base) {
+std::optional<uint64_t> Scanner::parseIntegerLiteral(const std::string& str,
+                                                     const uint8_t base) {
   uint64_t val = 0;
   for (const auto c : str) {
-    if (isNum(c)) {
-      val *= base;
-      val += static_cast<uint64_t>(c) - '0';
-    } else {
-      val *= base;
-      val += static_cast<uint64_t>(c) - 'a' + 10;
+    const auto digit =
+        isNum(c) ? static_cast<uint64_t>(c) - '0'
+                 : static_cast<uint64_t>(c) - (c >= 'a' ? 'a' : 'A') + 10;
+    if (val > (std::numeric_limits<uint64_t>::max() - digit) / base) {
+      return std::nullopt;
     }
+    val = val * base + digit;
   }
   return val;
 }
@@ -211,6 +211,11 @@ Token Scanner::consumeNumberLiteral() {
   Token t(line, col);
   uint8_t base = 10;
 
+  const bool negative = ch == '-';
+  if (negative) {
+    nextCh();
+  }
+
   if (ch == '0') {
     switch (peek()) {
     case 'b':
@@ -234,15 +239,6 @@ Token Scanner::consumeNumberLiteral() {
       break;
     }
   }
-  bool negative = false;
-  if (ch == '-') {
-    if (base != 10) {
-      error("Negative numbers are only allowed in base 10");
-    }
-    negative = true;
-    nextCh();
-  }
-
   const auto valBeforeDecimalSeparator = consumeNumberLiteral(base);
 
   if (ch == '.' || ch == 'e' || ch == 'E') {
@@ -282,13 +278,15 @@ Token Scanner::consumeNumberLiteral() {
       t.valReal *= -1;
     }
   } else {
-    t.val = static_cast<int64_t>(
-        parseIntegerLiteral(valBeforeDecimalSeparator, base));
-    t.kind = Token::Kind::IntegerLiteral;
-    if (negative) {
-      t.val *= -1;
-      t.isSigned = true;
+    const auto val = parseIntegerLiteral(valBeforeDecimalSeparator, base);
+    if (!val.has_value()) {
+      error("Integer literal is too large");
+      t.kind = Token::Kind::None;
+      return t;
     }
+    t.val = static_cast<int64_t>(negative ? 0 - *val : *val);
+    t.isSigned = negative;
+    t.kind = Token::Kind::IntegerLiteral;
   }
 
   const auto suffix1 = ch;
@@ -328,13 +326,14 @@ Token Scanner::consumeHardwareQubit() {
 
   expect('$');
 
-  t.kind = Token::Kind::HardwareQubit;
-  t.val = 0;
-  while (isNum(ch)) {
-    t.val *= 10;
-    t.val += static_cast<int64_t>(ch - '0');
-    nextCh();
+  const auto val = parseIntegerLiteral(consumeNumberLiteral(10), 10);
+  if (!val.has_value() || *val > std::numeric_limits<uint32_t>::max()) {
+    error("Hardware qubit index is too large");
+    t.kind = Token::Kind::None;
+    return t;
   }
+  t.kind = Token::Kind::HardwareQubit;
+  t.val = static_cast<int64_t>(*val);
 
   t.endCol = col;
   t.endLine = line;
-- 
2.43.0


From 1ebc33e814086652ef9ad9092f544ea52b985e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:26 +0000
Subject: [PATCH 045/142] fix: accept consecutive includes, major versions, and
 empty gate parameter lists

---
 src/qasm3/Parser.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/qasm3/Parser.cpp b/src/qasm3/Parser.cpp
index fbb4fbf..0ca938b 100644
--- a/src/qasm3/Parser.cpp
+++ b/src/qasm3/Parser.cpp
@@ -142,18 +142,18 @@ std::vector<std::shared_ptr<Statement>> Parser::parseProgram() {
       }
     }
 
+    if (current().kind == Token::Kind::Include) {
+      // the include statement just adds a new file to the scanner
+      parseInclude();
+      continue;
+    }
     statements.push_back(parseStatement());
   }
   return statements;
 }
 
 std::shared_ptr<Statement> Parser::parseStatement() {
-  if (current().kind == Token::Kind::Include) {
-    // We parse include and then continue in parseStatement, as the include
-    // statement just adds a new file to the scanner.
-    parseInclude();
-  }
-
+  const auto nesting = enterNesting();
   if (current().kind == Token::Kind::Const) {
     scan();
     return parseDeclaration(true);
@@ -256,6 +256,9 @@ void Parser::parseInclude() {
 
   // we need to make sure to report errors across includes
   includeDebugInfo = makeDebugInfo(tBegin, tEnd);
+  if (scanner.size() > MAX_INCLUDE_DEPTH) {
+    error(tBegin, "Includes are nested too deeply.");
+  }
 
   // Here we add a new scanner to our stack and then continue with that one
 
@@ -615,7 +618,9 @@ std::shared_ptr<GateDeclaration> Parser::parseOpaqueGateDefinition() {
   std::shared_ptr<IdentifierList> parameters{nullptr};
   if (current().kind == Token::Kind::LParen) {
     scan();
-    parameters = parseIdentifierList();
+    parameters = current().kind == Token::Kind::RParen
+                     ? std::make_shared<IdentifierList>(IdentifierList{})
+                     : parseIdentifierList();
     expect(Token::Kind::RParen);
   } else {
     parameters = std::make_shared<IdentifierList>(IdentifierList{});
@@ -651,6 +656,7 @@ std::shared_ptr<MeasureExpression> Parser::parseMeasureExpression() {
 }
 
 std::shared_ptr<Expression> Parser::exponentiation() {
+  const auto nesting = enterNesting();
   switch (current().kind) {
   case Token::Kind::Minus: {
     scan();
-- 
2.43.0


From 1822adfe77317b70813cb0e2f1b35013c8ea7efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:40 +0000
Subject: [PATCH 046/142] fix: limit nesting of OpenQASM programs

---
 include/mqt-core/qasm3/Parser.hpp | 24 ++++++++++++++++++
 src/qasm3/Parser.cpp              | 41 ++++++++++++++++++++++++++++---
 2 files changed, 61 insertions(+), 4 deletions(-)

diff --git a/include/mqt-core/qasm3/Parser.hpp b/include/mqt-core/qasm3/Parser.hpp
index 9c7c477..8821e83 100644
--- a/include/mqt-core/qasm3/Parser.hpp
+++ b/include/mqt-core/qasm3/Parser.hpp
@@ -21,6 +21,9 @@
 #include "Token.hpp"
 #include "Types_fwd.hpp"
 
+#include <cmath>
+#include <cstddef>
+#include <cstdint>
 #include <istream>
 #include <memory>
 #include <optional>
@@ -77,6 +80,27 @@ class Parser final {
     }
   };
 
+  /// The limits below ensure that recursively processing the syntax tree (or
+  /// including files) does not exhaust the available resources.
+  static constexpr size_t MAX_NESTING_DEPTH = 1000;
+  static constexpr size_t MAX_INCLUDE_DEPTH = 100;
+
+  /// Keeps track of how deeply the syntax tree is nested
+  class Nesting {
+    Parser* parser;
+    size_t levels = 0;
+
+  public:
+    explicit Nesting(Parser& p) : parser(&p) { increase(); }
+    Nesting(const Nesting&) = delete;
+    Nesting& operator=(const Nesting&) = delete;
+    ~Nesting() { parser->nestingDepth -= levels; }
+
+    void increase();
+  };
+  size_t nestingDepth = 0;
+  [[nodiscard]] Nesting enterNesting();
+
   std::stack<ScannerState> scanner;
   std::shared_ptr<DebugInfo> includeDebugInfo{nullptr};
 
diff --git a/src/qasm3/Parser.cpp b/src/qasm3/Parser.cpp
index 0ca938b..e2376a0 100644
--- a/src/qasm3/Parser.cpp
+++ b/src/qasm3/Parser.cpp
@@ -61,6 +61,18 @@ void Parser::error(const Token& token, const std::string& msg) {
   throw CompilerError(msg, makeDebugInfo(token));
 }
 
+Parser::Nesting Parser::enterNesting() {
+  return Nesting(*this);
+}
+
+void Parser::Nesting::increase() {
+  if (parser->nestingDepth >= MAX_NESTING_DEPTH) {
+    parser->error(parser->current(), "Program is nested too deeply.");
+  }
+  ++parser->nestingDepth;
+  ++levels;
+}
+
 Token Parser::last() const {
   if (scanner.empty()) {
     throw std::runtime_error("No scanner available");
@@ -111,10 +123,15 @@ Parser::Parser(std::istream& is, const bool implicitlyIncludeStdgates) {
 
 std::shared_ptr<VersionDeclaration> Parser::parseVersionDeclaration() {
   auto const tBegin = expect(Token::Kind::OpenQasm);
-  Token const versionToken = expect(Token::Kind::FloatLiteral);
+  // the minor version is optional
+  const bool isMajorOnly = current().kind == Token::Kind::IntegerLiteral;
+  Token const versionToken = expect(isMajorOnly ? Token::Kind::IntegerLiteral
+                                                : Token::Kind::FloatLiteral);
   auto const tEnd = expect(Token::Kind::Semicolon);
-  return std::make_shared<VersionDeclaration>(makeDebugInfo(tBegin, tEnd),
-                                              versionToken.valReal);
+  return std::make_shared<VersionDeclaration>(
+      makeDebugInfo(tBegin, tEnd), isMajorOnly
+                                       ? static_cast<double>(versionToken.val)
+                                       : versionToken.valReal);
 }
 
 std::vector<std::shared_ptr<Statement>> Parser::parseProgram() {
@@ -591,7 +608,9 @@ std::shared_ptr<GateDeclaration> Parser::parseGateDefinition() {
   std::shared_ptr<IdentifierList> parameters{nullptr};
   if (current().kind == Token::Kind::LParen) {
     scan();
-    parameters = parseIdentifierList();
+    parameters = current().kind == Token::Kind::RParen
+                     ? std::make_shared<IdentifierList>(IdentifierList{})
+                     : parseIdentifierList();
     expect(Token::Kind::RParen);
   } else {
     parameters = std::make_shared<IdentifierList>(IdentifierList{});
@@ -664,6 +683,18 @@ std::shared_ptr<Expression> Parser::exponentiation() {
     return std::make_shared<UnaryExpression>(
         UnaryExpression{UnaryExpression::Op::Negate, x});
   }
+  case Token::Kind::ExclamationPoint: {
+    scan();
+    const auto x = exponentiation();
+    return std::make_shared<UnaryExpression>(
+        UnaryExpression{UnaryExpression::Op::LogicalNot, x});
+  }
+  case Token::Kind::Tilde: {
+    scan();
+    const auto x = exponentiation();
+    return std::make_shared<UnaryExpression>(
+        UnaryExpression{UnaryExpression::Op::BitwiseNot, x});
+  }
   case Token::Kind::FloatLiteral: {
     const auto val = current().valReal;
     scan();
@@ -745,8 +776,10 @@ std::shared_ptr<Expression> Parser::factor() {
 
 std::shared_ptr<Expression> Parser::term() {
   auto x = factor();
+  auto nesting = enterNesting();
   while (current().kind == Token::Kind::Asterisk ||
          current().kind == Token::Kind::Slash) {
+    nesting.increase();
     auto const op = current().kind == Token::Kind::Asterisk
                         ? BinaryExpression::Op::Multiply
                         : BinaryExpression::Op::Divide;
-- 
2.43.0


From 0967da5075621cf90bf7a7a716cbc1cb4a82a15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:40 +0000
Subject: [PATCH 047/142] fix: respect operator precedence in OpenQASM
 expressions

---
 include/mqt-core/qasm3/Parser.hpp  | 30 ++++++++++++++-
 src/qasm3/Parser.cpp               | 59 +++++++++++++-----------------
 src/qasm3/passes/ConstEvalPass.cpp |  7 +++-
 src/qasm3/passes/TypeCheckPass.cpp |  4 ++
 4 files changed, 64 insertions(+), 36 deletions(-)

diff --git a/include/mqt-core/qasm3/Parser.hpp b/include/mqt-core/qasm3/Parser.hpp
index 8821e83..c22b890 100644
--- a/include/mqt-core/qasm3/Parser.hpp
+++ b/include/mqt-core/qasm3/Parser.hpp
@@ -50,15 +50,41 @@ class Parser final {
     std::unique_ptr<Scanner> scanner;
     std::optional<std::string> filename;
     bool isImplicitInclude;
+    std::optional<Token> pending;
 
     bool scan() {
       last = t;
       t = next;
-      next = scanner->next();
+      next = nextToken();
 
       return t.kind != Token::Kind::Eof;
     }
 
+    /// The sign of a number literal is an operator on its own since it may also
+    /// denote a subtraction, e.g., in `pi-2`.
+    Token nextToken() {
+      if (pending.has_value()) {
+        const auto token = *pending;
+        pending.reset();
+        return token;
+      }
+      auto token = scanner->next();
+      const bool isNegativeInteger =
+          token.kind == Token::Kind::IntegerLiteral && token.isSigned;
+      const bool isNegativeFloat = token.kind == Token::Kind::FloatLiteral &&
+                                   std::signbit(token.valReal);
+      if (!isNegativeInteger && !isNegativeFloat) {
+        return token;
+      }
+      auto minus = token;
+      minus.kind = Token::Kind::Minus;
+      token.val = static_cast<int64_t>(0 - static_cast<uint64_t>(token.val));
+      token.valReal = -token.valReal;
+      token.isSigned = false;
+      pending = token;
+      return minus;
+    }
+
     explicit ScannerState(
         std::istream* in,
         std::optional<std::string> debugFilename = std::nullopt,
@@ -164,6 +190,8 @@ public:
 
   std::shared_ptr<Expression> term();
 
+  std::shared_ptr<Expression> sum();
+
   std::shared_ptr<Expression> comparison();
 
   std::shared_ptr<Expression> parseExpression();
diff --git a/src/qasm3/Parser.cpp b/src/qasm3/Parser.cpp
index e2376a0..d7d7bae 100644
--- a/src/qasm3/Parser.cpp
+++ b/src/qasm3/Parser.cpp
@@ -679,7 +679,8 @@ std::shared_ptr<Expression> Parser::exponentiation() {
   switch (current().kind) {
   case Token::Kind::Minus: {
     scan();
-    const auto x = exponentiation();
+    // powers bind stronger than the sign
+    const auto x = factor();
     return std::make_shared<UnaryExpression>(
         UnaryExpression{UnaryExpression::Op::Negate, x});
   }
@@ -766,7 +767,9 @@ std::shared_ptr<Expression> Parser::exponentiation() {
 
 std::shared_ptr<Expression> Parser::factor() {
   auto x = exponentiation();
+  auto nesting = enterNesting();
   while (current().kind == Token::Kind::Caret) {
+    nesting.increase();
     scan();
     const auto y = exponentiation();
     x = std::make_shared<BinaryExpression>(BinaryExpression::Op::Power, x, y);
@@ -790,14 +793,33 @@ std::shared_ptr<Expression> Parser::term() {
   return x;
 }
 
-std::shared_ptr<Expression> Parser::comparison() {
+std::shared_ptr<Expression> Parser::sum() {
   auto x = term();
+  auto nesting = enterNesting();
+  while (current().kind == Token::Kind::Plus ||
+         current().kind == Token::Kind::Minus) {
+    nesting.increase();
+    auto const op = current().kind == Token::Kind::Plus
+                        ? BinaryExpression::Op::Add
+                        : BinaryExpression::Op::Subtract;
+    scan();
+    const auto y = term();
+    x = std::make_shared<BinaryExpression>(BinaryExpression{op, x, y});
+  }
+
+  return x;
+}
+
+std::shared_ptr<Expression> Parser::comparison() {
+  auto x = sum();
+  auto nesting = enterNesting();
   while (current().kind == Token::Kind::DoubleEquals ||
          current().kind == Token::Kind::NotEquals ||
          current().kind == Token::Kind::LessThan ||
          current().kind == Token::Kind::GreaterThan ||
          current().kind == Token::Kind::LessThanEquals ||
          current().kind == Token::Kind::GreaterThanEquals) {
+    nesting.increase();
     BinaryExpression::Op op = BinaryExpression::Op::Equal;
     switch (current().kind) {
     case Token::Kind::DoubleEquals:
@@ -822,42 +844,13 @@ std::shared_ptr<Expression> Parser::comparison() {
       error(current(), "Expected comparison operator");
     }
     scan();
-    const auto y = term();
+    const auto y = sum();
     x = std::make_shared<BinaryExpression>(op, x, y);
   }
   return x;
 }
 
-std::shared_ptr<Expression> Parser::parseExpression() {
-  std::shared_ptr<Expression> x{};
-  if (current().kind == Token::Kind::Minus) {
-    scan();
-    x = std::make_shared<UnaryExpression>(
-        UnaryExpression{UnaryExpression::Op::Negate, term()});
-  } else if (current().kind == Token::Kind::ExclamationPoint) {
-    scan();
-    x = std::make_shared<UnaryExpression>(
-        UnaryExpression{UnaryExpression::Op::LogicalNot, term()});
-  } else if (current().kind == Token::Kind::Tilde) {
-    scan();
-    x = std::make_shared<UnaryExpression>(
-        UnaryExpression{UnaryExpression::Op::BitwiseNot, term()});
-  } else {
-    x = comparison();
-  }
-
-  while (current().kind == Token::Kind::Plus ||
-         current().kind == Token::Kind::Minus) {
-    auto const op = current().kind == Token::Kind::Plus
-                        ? BinaryExpression::Op::Add
-                        : BinaryExpression::Op::Subtract;
-    scan();
-    const auto y = comparison();
-    x = std::make_shared<BinaryExpression>(BinaryExpression{op, x, y});
-  }
-
-  return x;
-}
+std::shared_ptr<Expression> Parser::parseExpression() { return comparison(); }
 
 std::shared_ptr<IdentifierList> Parser::parseIdentifierList() {
   std::vector<std::shared_ptr<IdentifierExpression>> identifierList{};
diff --git a/src/qasm3/passes/ConstEvalPass.cpp b/src/qasm3/passes/ConstEvalPass.cpp
index 498761a..4d35380 100644
--- a/src/qasm3/passes/ConstEvalPass.cpp
+++ b/src/qasm3/passes/ConstEvalPass.cpp
@@ -551,8 +551,11 @@ std::optional<ConstEvalValue> ConstEvalPass::visitUnaryExpression(
     }
     break;
   case UnaryExpression::Negate:
-    if (val->type == ConstEvalValue::Type::ConstInt) {
-      val->value = -std::get<0>(val->value);
+    if (val->type == ConstEvalValue::Type::ConstInt ||
+        val->type == ConstEvalValue::Type::ConstUint) {
+      val->value = static_cast<int64_t>(
+          0 - static_cast<uint64_t>(std::get<0>(val->value)));
+      val->type = ConstEvalValue::Type::ConstInt;
     } else if (val->type == ConstEvalValue::Type::ConstFloat) {
       val->value = -std::get<1>(val->value);
     } else {
diff --git a/src/qasm3/passes/TypeCheckPass.cpp b/src/qasm3/passes/TypeCheckPass.cpp
index 7afbac3..1028dbe 100644
--- a/src/qasm3/passes/TypeCheckPass.cpp
+++ b/src/qasm3/passes/TypeCheckPass.cpp
@@ -298,6 +298,10 @@ InferredType TypeCheckPass::visitUnaryExpression(
     }
     break;
   case UnaryExpression::Negate:
+    if (type.type->isUint()) {
+      return InferredType{std::dynamic_pointer_cast<ResolvedType>(
+          DesignatedType<uint64_t>::getIntTy(type.type->getDesignator()))};
+    }
     break;
   case UnaryExpression::DurationOf:
     return InferredType{UnsizedType<uint64_t>::getDurationTy()};
-- 
2.43.0


From 5776528fe94de6f0c16f3e3680e61ee37e5a1f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:37 +0000
Subject: [PATCH 048/142] fix: limit the nesting of gates in OpenQASM programs

---
 include/mqt-core/qasm3/Importer.hpp | 2 ++
 src/qasm3/Importer.cpp              | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/include/mqt-core/qasm3/Importer.hpp b/include/mqt-core/qasm3/Importer.hpp
index 4ebdb92..f9cb855 100644
--- a/include/mqt-core/qasm3/Importer.hpp
+++ b/include/mqt-core/qasm3/Importer.hpp
@@ -93,6 +93,8 @@ private:
 
   /// The user-defined gates whose bodies are currently being expanded
   std::vector<const Gate*> gateCallStack;
+  /// Ensures that expanding nested gates does not exhaust the stack
+  static constexpr size_t MAX_GATE_NESTING_DEPTH = 500;
 
   bool openQASM2CompatMode{false};
 
diff --git a/src/qasm3/Importer.cpp b/src/qasm3/Importer.cpp
index d61cbf7..918b418 100644
--- a/src/qasm3/Importer.cpp
+++ b/src/qasm3/Importer.cpp
@@ -814,6 +814,9 @@ std::unique_ptr<qc::Operation> Importer::applyQuantumOperation(
         gateCallStack.end()) {
       throw CompilerError("Gates must not be recursive.", debugInfo);
     }
+    if (gateCallStack.size() >= MAX_GATE_NESTING_DEPTH) {
+      throw CompilerError("Gates are nested too deeply.", debugInfo);
+    }
     gateCallStack.emplace_back(compoundGate);
     constEvalPass.pushEnv();
 
-- 
2.43.0


From e3bd864106ff974b3f2d4e9fef05b3b2e07335bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:37 +0000
Subject: [PATCH 049/142] fix: reject initial layouts that exceed the number of
 qubits

---
 src/qasm3/Importer.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/qasm3/Importer.cpp b/src/qasm3/Importer.cpp
index 918b418..25644d4 100644
--- a/src/qasm3/Importer.cpp
+++ b/src/qasm3/Importer.cpp
@@ -351,6 +351,12 @@ void Importer::visitProgram(
   // Finally, if we have a initial layout and output permutation specified,
   // apply them.
   if (!initialLayout.empty()) {
+    for (const auto& [physical, logical] : initialLayout) {
+      if (logical >= qc->getNqubits()) {
+        throw std::runtime_error("Initial layout contains more qubits than are "
+                                 "declared in the program.");
+      }
+    }
     qc->initialLayout = initialLayout;
   }
   if (!outputPermutation.empty()) {
-- 
2.43.0


From fea4f93fa58cb410f164c3782349887b2e21694c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:37 +0000
Subject: [PATCH 050/142] fix: evaluate constant expressions in gate bodies and
 conditional blocks

---
 include/mqt-core/qasm3/Importer.hpp |  9 ++++-----
 src/qasm3/Importer.cpp              | 27 ++++++++++++++++++---------
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/include/mqt-core/qasm3/Importer.hpp b/include/mqt-core/qasm3/Importer.hpp
index f9cb855..b67760e 100644
--- a/include/mqt-core/qasm3/Importer.hpp
+++ b/include/mqt-core/qasm3/Importer.hpp
@@ -108,12 +108,11 @@ private:
   void translateGateOperand(const std::shared_ptr<GateOperand>& gateOperand,
                             std::vector<qc::Qubit>& qubits,
                             const qc::QuantumRegisterMap& qregs,
-                            const std::shared_ptr<DebugInfo>& debugInfo) const;
+                            const std::shared_ptr<DebugInfo>& debugInfo);
 
   void translateBitOperand(
       const std::shared_ptr<IndexedIdentifier>& indexedIdentifier,
-      std::vector<qc::Bit>& bits,
-      const std::shared_ptr<DebugInfo>& debugInfo) const;
+      std::vector<qc::Bit>& bits, const std::shared_ptr<DebugInfo>& debugInfo);
 
   /**
    * @brief Translates a condition expression
@@ -127,9 +126,9 @@ private:
       std::pair<qc::Bit, bool>,
       std::tuple<qc::ClassicalRegister, qc::ComparisonKind, uint64_t>>
   translateCondition(const std::shared_ptr<Expression>& condition,
-                     const std::shared_ptr<DebugInfo>& debugInfo) const;
+                     const std::shared_ptr<DebugInfo>& debugInfo);
 
-  static uint64_t
+  [[nodiscard]] uint64_t
   evaluatePositiveConstant(const std::shared_ptr<Expression>& expr,
                            const std::shared_ptr<DebugInfo>& debugInfo,
                            uint64_t defaultValue = 0);
diff --git a/src/qasm3/Importer.cpp b/src/qasm3/Importer.cpp
index 25644d4..61ecf85 100644
--- a/src/qasm3/Importer.cpp
+++ b/src/qasm3/Importer.cpp
@@ -36,6 +36,7 @@
 #include <istream>
 #include <map>
 #include <memory>
+#include <optional>
 #include <sstream>
 #include <stdexcept>
 #include <string>
@@ -101,7 +102,7 @@ Importer::initializeBuiltins() {
 void Importer::translateGateOperand(
     const std::shared_ptr<GateOperand>& gateOperand,
     std::vector<qc::Qubit>& qubits, const qc::QuantumRegisterMap& qregs,
-    const std::shared_ptr<DebugInfo>& debugInfo) const {
+    const std::shared_ptr<DebugInfo>& debugInfo) {
   if (gateOperand->isHardwareQubit()) {
     const auto hardwareQubit = gateOperand->getHardwareQubit();
     // Ensure that the circuit has enough qubits.
@@ -158,8 +159,7 @@ void Importer::translateGateOperand(
 
 void Importer::translateBitOperand(
     const std::shared_ptr<IndexedIdentifier>& indexedIdentifier,
-    std::vector<qc::Bit>& bits,
-    const std::shared_ptr<DebugInfo>& debugInfo) const {
+    std::vector<qc::Bit>& bits, const std::shared_ptr<DebugInfo>& debugInfo) {
   const auto iter =
       qc->getClassicalRegisters().find(indexedIdentifier->identifier);
   if (iter == qc->getClassicalRegisters().end()) {
@@ -215,9 +215,8 @@ qc::ComparisonKind getMirroredComparisonKind(const qc::ComparisonKind kind) {
 
 std::variant<std::pair<qc::Bit, bool>,
              std::tuple<qc::ClassicalRegister, qc::ComparisonKind, uint64_t>>
-Importer::translateCondition(
-    const std::shared_ptr<Expression>& condition,
-    const std::shared_ptr<DebugInfo>& debugInfo) const {
+Importer::translateCondition(const std::shared_ptr<Expression>& condition,
+                             const std::shared_ptr<DebugInfo>& debugInfo) {
   if (const auto binaryExpression =
           std::dynamic_pointer_cast<BinaryExpression>(condition);
       binaryExpression != nullptr) {
@@ -318,12 +317,22 @@ Importer::evaluatePositiveConstant(const std::shared_ptr<Expression>& expr,
     return defaultValue;
   }
 
-  const auto constInt = std::dynamic_pointer_cast<Constant>(expr);
-  if (!constInt) {
+  std::optional<const_eval::ConstEvalValue> value{};
+  try {
+    value = constEvalPass.visit(expr);
+  } catch (const ConstEvalError& e) {
+    throw CompilerError(e.what(), debugInfo);
+  }
+  if (!value || (value->type != const_eval::ConstEvalValue::ConstInt &&
+                 value->type != const_eval::ConstEvalValue::ConstUint)) {
     throw CompilerError("Expected a constant integer expression.", debugInfo);
   }
 
-  return constInt->getUInt();
+  const auto result = std::get<int64_t>(value->value);
+  if (result < 0) {
+    throw CompilerError("Expected a non-negative integer.", debugInfo);
+  }
+  return static_cast<uint64_t>(result);
 }
 
 Importer::Importer(qc::QuantumComputation& quantumComputation)
-- 
2.43.0


From 54ba8ea1f39b33b805fff9814e1e74dda4bc4186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:37 +0000
Subject: [PATCH 051/142] fix: reject unterminated comments in OpenQASM
 programs

---
 src/qasm3/Scanner.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/qasm3/Scanner.cpp b/src/qasm3/Scanner.cpp
index f4ca32d..a23272e 100644
--- a/src/qasm3/Scanner.cpp
+++ b/src/qasm3/Scanner.cpp
@@ -116,12 +116,19 @@ std::optional<Token> Scanner::consumeWhitespaceAndComments() {
       return t;
     }
     if (ch == '/' && peek() == '*') {
+      Token t(line, col);
+
       // consume /*
       nextCh();
       nextCh();
       while (ch != 0 && (ch != '*' || peek() != '/')) {
         nextCh();
       }
+      if (ch == 0) {
+        error("unterminated comment");
+        t.kind = Token::Kind::None;
+        return t;
+      }
       // consume */
       expect('*');
       expect('/');
-- 
2.43.0


From 4701db7c4e867f75da9c4af9ce2b4688ce02cf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:37 +0000
Subject: [PATCH 052/142] fix: accept identifiers with non-ASCII letters

---
 src/qasm3/Scanner.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qasm3/Scanner.cpp b/src/qasm3/Scanner.cpp
index a23272e..4e5c49b 100644
--- a/src/qasm3/Scanner.cpp
+++ b/src/qasm3/Scanner.cpp
@@ -694,7 +694,9 @@ bool Scanner::isSpace(const char c) {
 }
 
 bool Scanner::isFirstIdChar(const char c) {
-  return isalpha(c) != 0 || c == '_';
+  // identifiers may contain letters beyond ASCII, e.g., `π`
+  const auto code = static_cast<unsigned char>(c);
+  return isalpha(code) != 0 || c == '_' || code >= 0x80;
 }
 
 bool Scanner::isNum(const char c) { return c >= '0' && c <= '9'; }
-- 
2.43.0


From 2b4d14052f40d608c2aca986a2491c2970d51834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:37 +0000
Subject: [PATCH 053/142] fix: let formal parameters of gates hide outer
 declarations

---
 src/qasm3/passes/TypeCheckPass.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/qasm3/passes/TypeCheckPass.cpp b/src/qasm3/passes/TypeCheckPass.cpp
index 1028dbe..ac6a872 100644
--- a/src/qasm3/passes/TypeCheckPass.cpp
+++ b/src/qasm3/passes/TypeCheckPass.cpp
@@ -94,15 +94,16 @@ void TypeCheckPass::visitGateStatement(
   // we save the current environment to restore it afterward
   const auto oldEnv = env;
 
+  // parameters and qubits hide outer declarations of the same name
   for (const auto& param : gateStatement->parameters->identifiers) {
-    env.emplace(param->identifier,
-                InferredType{std::dynamic_pointer_cast<ResolvedType>(
-                    DesignatedType<uint64_t>::getFloatTy(64))});
+    env.insert_or_assign(param->identifier,
+                         InferredType{std::dynamic_pointer_cast<ResolvedType>(
+                             DesignatedType<uint64_t>::getFloatTy(64))});
   }
   for (const auto& operand : gateStatement->qubits->identifiers) {
-    env.emplace(operand->identifier,
-                InferredType{std::dynamic_pointer_cast<ResolvedType>(
-                    DesignatedType<uint64_t>::getQubitTy(1))});
+    env.insert_or_assign(operand->identifier,
+                         InferredType{std::dynamic_pointer_cast<ResolvedType>(
+                             DesignatedType<uint64_t>::getQubitTy(1))});
   }
 
   for (const auto& stmt : gateStatement->statements) {
-- 
2.43.0


From e7235247d898cb1f84e0e5b0e9d1b4b6b758afcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:37 +0000
Subject: [PATCH 054/142] fix: resolve names in gate bodies lexically

---
 include/mqt-core/qasm3/NestedEnvironment.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/mqt-core/qasm3/NestedEnvironment.hpp b/include/mqt-core/qasm3/NestedEnvironment.hpp
index 34d0034..4ea6527 100644
--- a/include/mqt-core/qasm3/NestedEnvironment.hpp
+++ b/include/mqt-core/qasm3/NestedEnvironment.hpp
@@ -27,9 +27,10 @@ public:
   void pop() { env.pop_back(); }
 
   std::optional<T> find(std::string key) {
-    for (auto it = env.rbegin(); it != env.rend(); ++it) {
-      auto found = it->find(key);
-      if (found != it->end()) {
+    // Scopes are lexical: an inner scope (i.e., the body of a gate) only sees
+    // the global scope, but not the scope it is instantiated from.
+    for (const auto* scope : {&env.back(), &env.front()}) {
+      if (const auto found = scope->find(key); found != scope->end()) {
         return found->second;
       }
     }
-- 
2.43.0


From 3055fed21afa98cdc5a1f843b2f536b84fa2a92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:54 +0000
Subject: [PATCH 055/142] fix: update the name of inverted operations

---
 src/ir/operations/StandardOperation.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ir/operations/StandardOperation.cpp b/src/ir/operations/StandardOperation.cpp
index a374a1f..0dd10fe 100644
--- a/src/ir/operations/StandardOperation.cpp
+++ b/src/ir/operations/StandardOperation.cpp
@@ -634,6 +634,7 @@ void StandardOperation::invert() {
     throw std::runtime_error("Inverting gate" + toString(type) +
                              " is not supported.");
   }
+  name = toString(type);
 }
 
 void StandardOperation::dumpControls(std::ostringstream& op) const {
-- 
2.43.0


From 3a0b0f1a750b554bab27caf20600198df17fd3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:54 +0000
Subject: [PATCH 056/142] fix: do not assume that symbolic gates commute

---
 src/ir/operations/StandardOperation.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ir/operations/StandardOperation.cpp b/src/ir/operations/StandardOperation.cpp
index 0dd10fe..dd65f0f 100644
--- a/src/ir/operations/StandardOperation.cpp
+++ b/src/ir/operations/StandardOperation.cpp
@@ -547,6 +547,9 @@ auto StandardOperation::commutesAtQubit(const Operation& other,
   // operations with more than one parameter might not be commutative when the
   // parameter are not the same, i.e. a general U3 gate
   // TODO: this check might introduce false negatives
+  if (isSymbolicOperation() || other.isSymbolicOperation()) {
+    return *this == other;
+  }
   return type == other.getType() && targets == other.getTargets() &&
          parameter == other.getParameter();
 }
-- 
2.43.0


From b8e454d31ad8fdc13f5105d8d403e1167d284df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:54 +0000
Subject: [PATCH 057/142] fix: copy the comparison of conditional operations

---
 src/ir/operations/ClassicControlledOperation.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ir/operations/ClassicControlledOperation.cpp b/src/ir/operations/ClassicControlledOperation.cpp
index e0434c6..4fd5b74 100644
--- a/src/ir/operations/ClassicControlledOperation.cpp
+++ b/src/ir/operations/ClassicControlledOperation.cpp
@@ -91,7 +91,8 @@ ClassicControlledOperation::ClassicControlledOperation(
 ClassicControlledOperation::ClassicControlledOperation(
     const ClassicControlledOperation& ccop)
     : Operation(ccop), controlRegister(ccop.controlRegister),
-      controlBit(ccop.controlBit), expectedValue(ccop.expectedValue) {
+      controlBit(ccop.controlBit), expectedValue(ccop.expectedValue),
+      comparisonKind(ccop.comparisonKind) {
   op = ccop.op->clone();
 }
 ClassicControlledOperation&
@@ -101,6 +102,7 @@ ClassicControlledOperation::operator=(const ClassicControlledOperation& ccop) {
     controlRegister = ccop.controlRegister;
     controlBit = ccop.controlBit;
     expectedValue = ccop.expectedValue;
+    comparisonKind = ccop.comparisonKind;
     op = ccop.op->clone();
   }
   return *this;
-- 
2.43.0


From c82e42abe305d2526fa336738694620e0dc01b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:54 +0000
Subject: [PATCH 058/142] fix: invert the global phase of a circuit

---
 src/algorithms/StatePreparation.cpp | 4 ++--
 src/ir/QuantumComputation.cpp       | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/algorithms/StatePreparation.cpp b/src/algorithms/StatePreparation.cpp
index e99c5ad..0368fa2 100644
--- a/src/algorithms/StatePreparation.cpp
+++ b/src/algorithms/StatePreparation.cpp
@@ -262,11 +262,11 @@ gatesToUncompute(std::vector<std::complex<double>>& amplitudes,
       disentangler.emplace_back<Operation>(ryMultiplexer.asOperation());
     }
   }
-  // adjust global phase according to the last e^(it)
+  // remove the remaining global phase e^(it)
   double const arg = std::arg(std::accumulate(
       amplitudes.begin(), amplitudes.end(), std::complex<double>(0, 0)));
   if (std::abs(arg) > eps) {
-    disentangler.gphase(arg);
+    disentangler.gphase(-arg);
   }
   return disentangler;
 }
diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index 0cf5172..d52f404 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -549,6 +549,7 @@ void QuantumComputation::invert() {
     op->invert();
   }
   std::reverse(ops.begin(), ops.end());
+  globalPhase = -globalPhase;
 
   if (initialLayout.size() == outputPermutation.size()) {
     std::swap(initialLayout, outputPermutation);
-- 
2.43.0


From 9e593bea3be9109c7404020dc4110ababfc4ffa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:54 +0000
Subject: [PATCH 059/142] fix: keep all operations and classical dependencies
 when reordering

---
 src/ir/QuantumComputation.cpp | 119 ++++++++++++++++++++--------------
 1 file changed, 71 insertions(+), 48 deletions(-)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index d52f404..86a18c5 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -1121,6 +1121,33 @@ void QuantumComputation::instantiateInplace(
   }
 }
 
+namespace {
+// Collects the classical bits an operation reads or writes
+void collectClassicalBits(const Operation& op, std::set<Bit>& bits) {
+  if (op.isClassicControlledOperation()) {
+    const auto& condOp = dynamic_cast<const ClassicControlledOperation&>(op);
+    if (const auto& reg = condOp.getControlRegister(); reg.has_value()) {
+      for (std::size_t i = 0; i < reg->getSize(); ++i) {
+        bits.emplace(reg->getStartIndex() + i);
+      }
+    }
+    if (const auto& bit = condOp.getControlBit(); bit.has_value()) {
+      bits.emplace(*bit);
+    }
+    collectClassicalBits(*condOp.getOperation(), bits);
+  } else if (op.isCompoundOperation()) {
+    for (const auto& nestedOp : dynamic_cast<const CompoundOperation&>(op)) {
+      collectClassicalBits(*nestedOp, bits);
+    }
+  } else if (const auto* nonUnitary =
+                 dynamic_cast<const NonUnitaryOperation*>(&op);
+             nonUnitary != nullptr) {
+    bits.insert(nonUnitary->getClassics().begin(),
+                nonUnitary->getClassics().end());
+  }
+}
+} // namespace
+
 void QuantumComputation::reorderOperations() {
   using DAG = std::vector<std::deque<std::unique_ptr<Operation>*>>;
   using DAGIterator = std::deque<std::unique_ptr<Operation>*>::iterator;
@@ -1131,71 +1158,69 @@ void QuantumComputation::reorderOperations() {
     highestPhysicalQubit = std::max(q.first, highestPhysicalQubit);
   }
 
-  auto dag = DAG(highestPhysicalQubit + 1);
+  // one wire for every classical bit followed by one for every qubit
+  std::vector<std::set<Bit>> usedBits(ops.size());
+  std::size_t nbits = 0;
+  for (std::size_t i = 0; i < ops.size(); ++i) {
+    collectClassicalBits(*ops[i], usedBits[i]);
+    if (!usedBits[i].empty()) {
+      nbits =
+          std::max(nbits, static_cast<std::size_t>(*usedBits[i].rbegin()) + 1);
+    }
+  }
 
-  for (auto& op : ops) {
-    const auto usedQubits = op->getUsedQubits();
-    for (const auto q : usedQubits) {
-      dag.at(q).push_back(&op);
+  auto dag = DAG(nbits + highestPhysicalQubit + 1);
+  std::unordered_map<const Operation*, std::vector<std::size_t>> wires;
+  std::vector<std::unique_ptr<Operation>> newOps{};
+
+  for (std::size_t i = 0; i < ops.size(); ++i) {
+    auto& op = ops[i];
+    auto& opWires = wires[op.get()];
+    opWires.assign(usedBits[i].begin(), usedBits[i].end());
+    for (const auto q : op->getUsedQubits()) {
+      opWires.emplace_back(nbits + q);
+    }
+    for (const auto w : opWires) {
+      dag.at(w).push_back(&op);
+    }
+    if (opWires.empty()) {
+      // operations that do not act on anything (e.g., global phases) can be
+      // executed right away
+      newOps.emplace_back(std::move(op));
     }
   }
 
   // initialize iterators
   DAGIterators dagIterators{dag.size()};
   for (size_t q = 0; q < dag.size(); ++q) {
-    if (dag.at(q).empty()) {
-      // qubit is idle
-      dagIterators.at(q) = dag.at(q).end();
-    } else {
-      // point to first operation
-      dagIterators.at(q) = dag.at(q).begin();
-    }
+    dagIterators.at(q) = dag.at(q).begin();
   }
 
-  std::vector<std::unique_ptr<Operation>> newOps{};
-
   // iterate over DAG in depth-first fashion starting from the top-most qubit
-  const auto msq = dag.size() - 1;
   bool done = false;
   while (!done) {
     // assume that everything is done
     done = true;
 
-    // iterate over qubits in reverse order
-    for (auto q = static_cast<std::make_signed_t<Qubit>>(msq); q >= 0; --q) {
-      // nothing to be done for this qubit
-      if (dagIterators.at(static_cast<std::size_t>(q)) ==
-          dag.at(static_cast<std::size_t>(q)).end()) {
+    // iterate over wires in reverse order
+    for (std::size_t i = dag.size(); i > 0; --i) {
+      const auto q = i - 1;
+      // nothing to be done for this wire
+      if (dagIterators.at(q) == dag.at(q).end()) {
         continue;
       }
       done = false;
 
-      // get the current operation on the qubit
-      auto& it = dagIterators.at(static_cast<std::size_t>(q));
-      auto& op = **it;
+      // get the current operation on the wire
+      auto& op = **dagIterators.at(q);
 
-      // check whether the gate can be scheduled, i.e. whether all qubits it
+      // check whether the gate can be scheduled, i.e. whether all wires it
       // acts on are at this operation
-      bool executable = true;
-      std::vector<bool> actsOn(dag.size());
-      actsOn[static_cast<std::size_t>(q)] = true;
-      for (std::size_t i = 0; i < dag.size(); ++i) {
-        // actually check in reverse order
-        const auto qb =
-            static_cast<std::make_signed_t<Qubit>>(dag.size() - 1 - i);
-        if (qb != q && op->actsOn(static_cast<Qubit>(qb))) {
-          actsOn[static_cast<std::size_t>(qb)] = true;
-
-          assert(dagIterators.at(static_cast<std::size_t>(qb)) !=
-                 dag.at(static_cast<std::size_t>(qb)).end());
-          // check whether operation is executable for the currently considered
-          // qubit
-          if (*dagIterators.at(static_cast<std::size_t>(qb)) != *it) {
-            executable = false;
-            break;
-          }
-        }
-      }
+      const auto& opWires = wires.at(op.get());
+      const auto executable =
+          std::all_of(opWires.begin(), opWires.end(), [&](const auto w) {
+            return *dagIterators.at(w) == *dagIterators.at(q);
+          });
 
       // continue, if this gate is not yet executable
       if (!executable) {
@@ -1206,10 +1231,8 @@ void QuantumComputation::reorderOperations() {
       newOps.emplace_back(std::move(op));
 
       // now increase all corresponding iterators
-      for (std::size_t i = 0; i < dag.size(); ++i) {
-        if (actsOn[i]) {
-          ++(dagIterators.at(i));
-        }
+      for (const auto w : opWires) {
+        ++(dagIterators.at(w));
       }
     }
   }
-- 
2.43.0


From b4c32a40b720f4e36fe337fe89348d5bb8df3d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:55 +0000
Subject: [PATCH 060/142] fix: instantiate symbolic operations within other
 operations

---
 src/ir/QuantumComputation.cpp | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index 86a18c5..dbe9117 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -1099,19 +1099,33 @@ bool QuantumComputation::isVariableFree() const {
                      [](const auto& op) { return !op->isSymbolicOperation(); });
 }
 
+namespace {
+void instantiateOperation(Operation& op, const VariableAssignment& assignment) {
+  if (auto* symOp = dynamic_cast<SymbolicOperation*>(&op); symOp != nullptr) {
+    symOp->instantiate(assignment);
+  } else if (auto* compOp = dynamic_cast<CompoundOperation*>(&op);
+             compOp != nullptr) {
+    for (const auto& nestedOp : *compOp) {
+      instantiateOperation(*nestedOp, assignment);
+    }
+  } else if (auto* condOp = dynamic_cast<ClassicControlledOperation*>(&op);
+             condOp != nullptr) {
+    instantiateOperation(*condOp->getOperation(), assignment);
+  }
+}
+} // namespace
+
 // Instantiates this computation
 void QuantumComputation::instantiateInplace(
     const VariableAssignment& assignment) {
   for (auto& op : ops) {
+    instantiateOperation(*op, assignment);
+    // if the operation is fully instantiated, it can be replaced by the
+    // corresponding standard operation
     if (auto* symOp = dynamic_cast<SymbolicOperation*>(op.get());
-        symOp != nullptr) {
-      symOp->instantiate(assignment);
-      // if the operation is fully instantiated, it can be replaced by the
-      // corresponding standard operation
-      if (symOp->isStandardOperation()) {
-        op = std::make_unique<StandardOperation>(
-            *dynamic_cast<StandardOperation*>(symOp));
-      }
+        symOp != nullptr && symOp->isStandardOperation()) {
+      op = std::make_unique<StandardOperation>(
+          *dynamic_cast<StandardOperation*>(symOp));
     }
   }
   // after an operation is instantiated, the respective parameters can be
-- 
2.43.0


From 8007abd031377bbc955ec21f904a644ea4bb6456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:55 +0000
Subject: [PATCH 061/142] fix: support inverse checks of compound operations
 without qubits

---
 src/ir/operations/CompoundOperation.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/ir/operations/CompoundOperation.cpp b/src/ir/operations/CompoundOperation.cpp
index af2bc3c..df5afa8 100644
--- a/src/ir/operations/CompoundOperation.cpp
+++ b/src/ir/operations/CompoundOperation.cpp
@@ -220,16 +220,14 @@ auto CompoundOperation::isInverseOf(const Operation& other) const -> bool {
     // and the reorderOperations method can be used to get a canonical form of
     // the compound operations
     const auto& thisUsedQubits = getUsedQubits();
-    assert(!thisUsedQubits.empty());
     const auto thisMaxQubit =
-        *std::max_element(thisUsedQubits.cbegin(), thisUsedQubits.cend());
+        thisUsedQubits.empty() ? Qubit{0} : *thisUsedQubits.rbegin();
     QuantumComputation thisQc(thisMaxQubit + 1);
     std::for_each(cbegin(), cend(),
                   [&](const auto& op) { thisQc.emplace_back(op->clone()); });
     const auto& otherUsedQubits = co.getUsedQubits();
-    assert(!otherUsedQubits.empty());
     const auto otherMaxQubit =
-        *std::max_element(otherUsedQubits.cbegin(), otherUsedQubits.cend());
+        otherUsedQubits.empty() ? Qubit{0} : *otherUsedQubits.rbegin();
     QuantumComputation otherQc(otherMaxQubit + 1);
     std::for_each(co.cbegin(), co.cend(),
                   [&](const auto& op) { otherQc.emplace_back(op->clone()); });
-- 
2.43.0


From 285a590dca176cb52c06fb93a667c53042a202ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:55 +0000
Subject: [PATCH 062/142] fix: recognise symbolic conditional operations

---
 include/mqt-core/ir/operations/ClassicControlledOperation.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/mqt-core/ir/operations/ClassicControlledOperation.hpp b/include/mqt-core/ir/operations/ClassicControlledOperation.hpp
index d1f1c2c..6466dc0 100644
--- a/include/mqt-core/ir/operations/ClassicControlledOperation.hpp
+++ b/include/mqt-core/ir/operations/ClassicControlledOperation.hpp
@@ -101,6 +101,10 @@ public:
     return true;
   }
 
+  [[nodiscard]] bool isSymbolicOperation() const override {
+    return op->isSymbolicOperation();
+  }
+
   [[nodiscard]] bool actsOn(const Qubit i) const override {
     return op->actsOn(i);
   }
-- 
2.43.0


From 67dd2b8aefdfdfbaa44cf8584cd0114622dd75ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:55 +0000
Subject: [PATCH 063/142] fix: forward qubit queries and relabelling to the
 conditional operation

---
 .../ir/operations/ClassicControlledOperation.hpp  | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/mqt-core/ir/operations/ClassicControlledOperation.hpp b/include/mqt-core/ir/operations/ClassicControlledOperation.hpp
index 6466dc0..4e55e26 100644
--- a/include/mqt-core/ir/operations/ClassicControlledOperation.hpp
+++ b/include/mqt-core/ir/operations/ClassicControlledOperation.hpp
@@ -22,7 +22,9 @@
 #include <memory>
 #include <optional>
 #include <ostream>
+#include <set>
 #include <string>
+#include <vector>
 
 namespace qc {
 
@@ -109,6 +111,19 @@ public:
     return op->actsOn(i);
   }
 
+  [[nodiscard]] auto getUsedQubitsPermuted(const Permutation& perm) const
+      -> std::set<Qubit> override {
+    return op->getUsedQubitsPermuted(perm);
+  }
+
+  void addDepthContribution(std::vector<std::size_t>& depths) const override {
+    op->addDepthContribution(depths);
+  }
+
+  void apply(const Permutation& permutation) override {
+    op->apply(permutation);
+  }
+
   void addControl(const Control c) override { op->addControl(c); }
 
   void clearControls() override { op->clearControls(); }
-- 
2.43.0


From 9b66509e92986c504bc24f7d134848a2a840c2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:55 +0000
Subject: [PATCH 064/142] fix: do not treat controlled rotations as symmetric

---
 src/ir/operations/Operation.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ir/operations/Operation.cpp b/src/ir/operations/Operation.cpp
index 6e68795..e4d2337 100644
--- a/src/ir/operations/Operation.cpp
+++ b/src/ir/operations/Operation.cpp
@@ -134,7 +134,10 @@ bool Operation::equals(const Operation& op, const Permutation& perm1,
     return false;
   }
 
-  if (isDiagonalGate()) {
+  // controls and targets of most diagonal gates are interchangeable
+  const auto isSymmetric =
+      isDiagonalGate() && (nc1 == 0U || (getType() != RZ && getType() != RZZ));
+  if (isSymmetric) {
     // check pos. controls and targets together
     const auto& usedQubits1 = getUsedQubitsPermuted(perm1);
     const auto& usedQubits2 = op.getUsedQubitsPermuted(perm2);
-- 
2.43.0


From c5d3bfddcb97e25d7291a7351fbd25e813145352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:55 +0000
Subject: [PATCH 065/142] fix: compare symbolic operations completely

---
 src/ir/operations/Operation.cpp         |  3 ++-
 src/ir/operations/SymbolicOperation.cpp | 27 ++++---------------------
 2 files changed, 6 insertions(+), 24 deletions(-)

diff --git a/src/ir/operations/Operation.cpp b/src/ir/operations/Operation.cpp
index e4d2337..967d2f1 100644
--- a/src/ir/operations/Operation.cpp
+++ b/src/ir/operations/Operation.cpp
@@ -116,7 +116,8 @@ std::ostream& Operation::print(std::ostream& os, const Permutation& permutation,
 bool Operation::equals(const Operation& op, const Permutation& perm1,
                        const Permutation& perm2) const {
   // check type
-  if (getType() != op.getType()) {
+  if (getType() != op.getType() ||
+      isSymbolicOperation() != op.isSymbolicOperation()) {
     return false;
   }
 
diff --git a/src/ir/operations/SymbolicOperation.cpp b/src/ir/operations/SymbolicOperation.cpp
index 46ce210..ea4401e 100644
--- a/src/ir/operations/SymbolicOperation.cpp
+++ b/src/ir/operations/SymbolicOperation.cpp
@@ -331,32 +331,13 @@ bool SymbolicOperation::isStandardOperation() const {
 
 bool SymbolicOperation::equals(const Operation& op, const Permutation& perm1,
                                const Permutation& perm2) const {
-  if (!op.isSymbolicOperation() && !isStandardOperation()) {
-    return false;
-  }
-  if (isStandardOperation() && StandardOperation::equals(op, perm1, perm2)) {
-    return true;
-  }
-
-  if (!op.isSymbolicOperation()) {
-    return false;
-  }
-  const auto& symOp = dynamic_cast<const SymbolicOperation&>(op);
-  for (std::size_t i = 0; i < symbolicParameter.size(); ++i) {
-    const auto& symParam = symbolicParameter.at(i);
-    const auto& symOpParam = symOp.symbolicParameter.at(i);
-    const auto symParamIsSymbolic = symParam.has_value();
-    const auto symOpParamIsSymbolic = symOpParam.has_value();
-
-    if (symParamIsSymbolic != symOpParamIsSymbolic) {
+  if (isSymbolicOperation()) {
+    const auto* symOp = dynamic_cast<const SymbolicOperation*>(&op);
+    if (symOp == nullptr || symbolicParameter != symOp->symbolicParameter) {
       return false;
     }
-
-    if (symParamIsSymbolic) {
-      return symParam.value() == symOpParam.value();
-    }
   }
-  return true;
+  return StandardOperation::equals(op, perm1, perm2);
 }
 
 [[noreturn]] void SymbolicOperation::dumpOpenQASM(
-- 
2.43.0


From ae921bb7427977ab2e116050e12e3d3b336b6f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:55 +0000
Subject: [PATCH 066/142] fix: drop the parameters of simplified symbolic gates

---
 src/ir/operations/SymbolicOperation.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/ir/operations/SymbolicOperation.cpp b/src/ir/operations/SymbolicOperation.cpp
index ea4401e..e48cdaf 100644
--- a/src/ir/operations/SymbolicOperation.cpp
+++ b/src/ir/operations/SymbolicOperation.cpp
@@ -231,6 +231,17 @@ void SymbolicOperation::checkSymbolicUgate() {
     }
   }
   // NOLINTEND(bugprone-unchecked-optional-access)
+
+  // drop the parameters the resulting gate does not have
+  if (!isSymbolicOperation()) {
+    symbolicParameter.resize(parameter.size());
+  } else if (type == P || type == U2) {
+    const auto n =
+        static_cast<std::ptrdiff_t>(parameter.size() - (type == P ? 1U : 2U));
+    parameter.erase(parameter.begin(), parameter.begin() + n);
+    symbolicParameter.erase(symbolicParameter.begin(),
+                            symbolicParameter.begin() + n);
+  }
 }
 
 void SymbolicOperation::setup(const std::vector<SymbolOrNumber>& params) {
@@ -371,6 +382,8 @@ void SymbolicOperation::instantiate(const VariableAssignment& assignment) {
     symbolicParameter.at(i).reset();
   }
   checkUgate();
+  symbolicParameter.resize(parameter.size());
+  name = toString(type);
 }
 
 void SymbolicOperation::negateSymbolicParameter(const std::size_t index) {
-- 
2.43.0


From 15988a746f7409b93b7a9c55f1404c977ddea16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:55 +0000
Subject: [PATCH 067/142] fix: make hashes of expressions consistent with
 equality

---
 include/mqt-core/ir/operations/Expression.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/mqt-core/ir/operations/Expression.hpp b/include/mqt-core/ir/operations/Expression.hpp
index 43d6ea3..520de74 100644
--- a/include/mqt-core/ir/operations/Expression.hpp
+++ b/include/mqt-core/ir/operations/Expression.hpp
@@ -293,9 +293,8 @@ template <typename T> bool operator!=(const Term<T>& lhs, const Term<T>& rhs) {
  */
 template <typename T> struct std::hash<sym::Term<T>> {
   std::size_t operator()(const sym::Term<T>& term) const noexcept {
-    const auto h1 = std::hash<sym::Variable>{}(term.getVar());
-    const auto h2 = std::hash<T>{}(term.getCoeff());
-    return qc::combineHash(h1, h2);
+    // coefficients are only compared up to a tolerance
+    return std::hash<sym::Variable>{}(term.getVar());
   }
 };
 
@@ -832,8 +831,9 @@ std::ostream& operator<<(std::ostream& os, const Expression<T, U>& expr) {
 template <typename T, typename U> struct std::hash<sym::Expression<T, U>> {
   std::size_t operator()(const sym::Expression<T, U>& expr) const noexcept {
     std::size_t seed = 0U;
+    // coefficients are only compared up to a tolerance
     for (const auto& term : expr) {
-      qc::hashCombine(seed, std::hash<sym::Term<T>>{}(term));
+      qc::hashCombine(seed, std::hash<sym::Variable>{}(term.getVar()));
     }
     qc::hashCombine(seed, std::hash<U>{}(expr.getConst()));
     return seed;
-- 
2.43.0


From f9ad0d85b07e689f80505748cf76c1d8b643acae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:55 +0000
Subject: [PATCH 068/142] fix: normalise expressions constructed from terms

---
 include/mqt-core/ir/operations/Expression.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/mqt-core/ir/operations/Expression.hpp b/include/mqt-core/ir/operations/Expression.hpp
index 520de74..b54cfbe 100644
--- a/include/mqt-core/ir/operations/Expression.hpp
+++ b/include/mqt-core/ir/operations/Expression.hpp
@@ -700,10 +700,10 @@ Expression<T, U> operator+(Expression<T, U> lhs, const U& rhs) {
   return lhs;
 }
 
-template <typename T, typename U>
-Expression<T, U> operator+([[maybe_unused]] const T& lhs,
-                           Expression<T, U> rhs) {
-  rhs += rhs;
+template <typename T, typename U,
+          std::enable_if_t<!std::is_same_v<T, U>>* = nullptr>
+Expression<T, U> operator+(const T& lhs, Expression<T, U> rhs) {
+  rhs += U{lhs};
   return rhs;
 }
 
-- 
2.43.0


From a40af2dd42b08d97faf74d26d171413646f9d5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:55 +0000
Subject: [PATCH 069/142] fix: respect the operands of expression arithmetic

---
 include/mqt-core/ir/operations/Expression.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/mqt-core/ir/operations/Expression.hpp b/include/mqt-core/ir/operations/Expression.hpp
index b54cfbe..17552e4 100644
--- a/include/mqt-core/ir/operations/Expression.hpp
+++ b/include/mqt-core/ir/operations/Expression.hpp
@@ -352,7 +352,10 @@ public:
    * @param con Constant of the expression.
    */
   Expression(const std::vector<Term<T>>& ts, const U& con)
-      : terms(ts), constant(con) {};
+      : terms(ts), constant(con) {
+    sortTerms();
+    aggregateEqualTerms();
+  }
 
   /**
    * @brief Default constructor. Expression has no Terms and a constant of 0.
@@ -720,12 +723,12 @@ Expression<T, U> operator-(Expression<T, U> lhs, const Term<T>& rhs) {
 template <typename T, typename U>
 Expression<T, U> operator-(const Term<T>& lhs, Expression<T, U> rhs) {
   rhs -= lhs;
-  return rhs;
+  return -rhs;
 }
 template <typename T, typename U>
 Expression<T, U> operator-(const U& lhs, Expression<T, U> rhs) {
   rhs -= lhs;
-  return rhs;
+  return -rhs;
 }
 
 template <typename T, typename U>
-- 
2.43.0


From 4e83d30a188f1ec21591cc2daf3de76636bdc511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:55 +0000
Subject: [PATCH 070/142] fix: compare the variables of expressions

---
 include/mqt-core/ir/operations/Expression.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mqt-core/ir/operations/Expression.hpp b/include/mqt-core/ir/operations/Expression.hpp
index 17552e4..b3f1eed 100644
--- a/include/mqt-core/ir/operations/Expression.hpp
+++ b/include/mqt-core/ir/operations/Expression.hpp
@@ -796,7 +796,7 @@ bool operator==(const Expression<T, U>& lhs, const Expression<T, U>& rhs) {
 
   const auto lhsTerms = lhs.numTerms();
   for (size_t i = 0; i < lhsTerms; ++i) {
-    if (std::abs(lhs[i].getCoeff() - rhs[i].getCoeff()) >= TOLERANCE) {
+    if (lhs[i] != rhs[i]) {
       return false;
     }
   }
-- 
2.43.0


From 69f0ccb143d2314e5ef68c005d1cc4f230845516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:05 +0000
Subject: [PATCH 071/142] fix: compare the position of registers

---
 include/mqt-core/ir/Register.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/mqt-core/ir/Register.hpp b/include/mqt-core/ir/Register.hpp
index 2163d6b..98ba23b 100644
--- a/include/mqt-core/ir/Register.hpp
+++ b/include/mqt-core/ir/Register.hpp
@@ -38,7 +38,8 @@ public:
   }
 
   [[nodiscard]] bool operator==(const Register& other) const {
-    return name == other.name && size == other.size;
+    return name == other.name && startIndex == other.startIndex &&
+           size == other.size;
   }
   [[nodiscard]] bool operator!=(const Register& other) const {
     return !(*this == other);
-- 
2.43.0


From 3e162f32acc17e9a0bc57bcec3cc89b295c99bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:05 +0000
Subject: [PATCH 072/142] fix: compare resets irrespective of the order of
 qubits

---
 src/ir/operations/NonUnitaryOperation.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ir/operations/NonUnitaryOperation.cpp b/src/ir/operations/NonUnitaryOperation.cpp
index 1491084..8284d50 100644
--- a/src/ir/operations/NonUnitaryOperation.cpp
+++ b/src/ir/operations/NonUnitaryOperation.cpp
@@ -177,7 +177,9 @@ bool NonUnitaryOperation::equals(const Operation& op, const Permutation& perm1,
 
       return measurements1 == measurements2;
     }
-    return Operation::equals(op, perm1, perm2);
+    // the order of the qubits to be reset is irrelevant
+    return getUsedQubitsPermuted(perm1) ==
+           nonunitary->getUsedQubitsPermuted(perm2);
   }
   return false;
 }
-- 
2.43.0


From e2ce71b13c079298545d7db5c36a13371fd7f73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:05 +0000
Subject: [PATCH 073/142] fix: make hashes of operations consistent with
 equality

---
 .../ir/operations/NonUnitaryOperation.hpp     | 18 +++++++++++++++---
 include/mqt-core/ir/operations/Operation.hpp  | 19 +++++++++++++++----
 2 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/include/mqt-core/ir/operations/NonUnitaryOperation.hpp b/include/mqt-core/ir/operations/NonUnitaryOperation.hpp
index 02dada2..a0e0940 100644
--- a/include/mqt-core/ir/operations/NonUnitaryOperation.hpp
+++ b/include/mqt-core/ir/operations/NonUnitaryOperation.hpp
@@ -23,6 +23,7 @@
 #include <ostream>
 #include <set>
 #include <stdexcept>
+#include <utility>
 #include <vector>
 
 namespace qc {
@@ -107,10 +108,21 @@ template <> struct std::hash<qc::NonUnitaryOperation> {
   std::size_t operator()(qc::NonUnitaryOperation const& op) const noexcept {
     std::size_t seed = 0U;
     qc::hashCombine(seed, op.getType());
-    for (const auto& q : op.getTargets()) {
-      qc::hashCombine(seed, q);
+    const auto& targets = op.getTargets();
+    const auto& classics = op.getClassics();
+    if (classics.empty()) {
+      for (const auto& q : op.getUsedQubits()) {
+        qc::hashCombine(seed, q);
+      }
+      return seed;
+    }
+    // the order of measurements is irrelevant for the equality of operations
+    std::set<std::pair<qc::Qubit, qc::Bit>> measurements;
+    for (std::size_t i = 0; i < targets.size(); ++i) {
+      measurements.emplace(targets[i], classics[i]);
     }
-    for (const auto& c : op.getClassics()) {
+    for (const auto& [q, c] : measurements) {
+      qc::hashCombine(seed, q);
       qc::hashCombine(seed, c);
     }
     return seed;
diff --git a/include/mqt-core/ir/operations/Operation.hpp b/include/mqt-core/ir/operations/Operation.hpp
index 3dbfa19..5bcdbff 100644
--- a/include/mqt-core/ir/operations/Operation.hpp
+++ b/include/mqt-core/ir/operations/Operation.hpp
@@ -234,13 +234,24 @@ template <> struct std::hash<qc::Operation> {
     std::size_t seed = 0U;
     qc::hashCombine(seed, hash<qc::OpType>{}(op.getType()));
     for (const auto& control : op.getControls()) {
-      qc::hashCombine(seed, hash<qc::Qubit>{}(control.qubit));
       if (control.type == qc::Control::Type::Neg) {
-        seed ^= 1ULL;
+        qc::hashCombine(seed, hash<qc::Qubit>{}(control.qubit));
       }
     }
-    for (const auto& target : op.getTargets()) {
-      qc::hashCombine(seed, hash<qc::Qubit>{}(target));
+    // the roles or the order of the qubits may be irrelevant for the equality
+    // of the following operations
+    if (op.isDiagonalGate() || op.isNonUnitaryOperation() ||
+        op.isClassicControlledOperation()) {
+      for (const auto& qubit : op.getUsedQubits()) {
+        qc::hashCombine(seed, hash<qc::Qubit>{}(qubit));
+      }
+    } else {
+      for (const auto& control : op.getControls()) {
+        qc::hashCombine(seed, hash<qc::Qubit>{}(control.qubit));
+      }
+      for (const auto& target : op.getTargets()) {
+        qc::hashCombine(seed, hash<qc::Qubit>{}(target));
+      }
     }
     for (const auto& param : op.getParameter()) {
       qc::hashCombine(seed, hash<qc::fp>{}(param));
-- 
2.43.0


From 8e14af1cfd3b7b86d112221ee3ef76ca5f56955c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:39 +0000
Subject: [PATCH 074/142] fix: use the actual qubits for barriers and
 measurements of all qubits

---
 src/ir/QuantumComputation.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index dbe9117..c842b49 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -1597,15 +1597,15 @@ void QuantumComputation::measureAll(const bool addBits) {
   }
 
   barrier();
-  Qubit start = 0U;
+  Bit start = 0U;
   if (addBits) {
-    start = static_cast<Qubit>(classicalRegisters.at("meas").getStartIndex());
+    start = classicalRegisters.at("meas").getStartIndex();
   }
-  // measure i -> (start+i) in descending order
+  // measure the i-th qubit -> (start+i) in descending order
   // (this is an optimization for the simulator)
-  for (std::size_t i = getNqubits(); i > 0; --i) {
-    const auto q = static_cast<Qubit>(i - 1);
-    measure(q, start + q);
+  auto bit = start + getNqubits();
+  for (auto it = initialLayout.crbegin(); it != initialLayout.crend(); ++it) {
+    measure(it->first, --bit);
   }
 }
 
@@ -1618,8 +1618,11 @@ void QuantumComputation::reset(const Targets& targets) {
   emplace_back<NonUnitaryOperation>(targets, Reset);
 }
 void QuantumComputation::barrier() {
-  std::vector<Qubit> targets(getNqubits());
-  std::iota(targets.begin(), targets.end(), 0);
+  std::vector<Qubit> targets{};
+  targets.reserve(getNqubits());
+  for (const auto& [physical, logical] : initialLayout) {
+    targets.emplace_back(physical);
+  }
   emplace_back<StandardOperation>(targets, Barrier);
 }
 void QuantumComputation::barrier(const Qubit target) {
-- 
2.43.0


From ae8236b5080626dfdc1ee5c0bc01a10b8636f6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:39 +0000
Subject: [PATCH 075/142] fix: count classical bits of all operations in
 fromCompoundOperation

---
 src/ir/QuantumComputation.cpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index c842b49..9a4e743 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -1302,7 +1302,7 @@ QuantumComputation
 QuantumComputation::fromCompoundOperation(const CompoundOperation& op) {
   QuantumComputation qc{};
   Qubit maxQubitIndex = 0;
-  Bit maxBitIndex = 0;
+  std::set<Bit> usedBits{};
   for (const auto& g : op) {
     // clone the gate and add it to the circuit
     qc.emplace_back(g->clone());
@@ -1313,18 +1313,12 @@ QuantumComputation::fromCompoundOperation(const CompoundOperation& op) {
       maxQubitIndex = std::max(maxQubitIndex, q);
     }
 
-    if (g->getType() == Measure) {
-      // update the maximum classical bit index
-      const auto& measureOp = dynamic_cast<const NonUnitaryOperation&>(*g);
-      const auto& classics = measureOp.getClassics();
-      for (const auto& c : classics) {
-        maxBitIndex = std::max(maxBitIndex, c);
-      }
-    }
+    collectClassicalBits(*g, usedBits);
   }
 
   // The following also sets the initial layout and the output permutation
   qc.addQubitRegister(static_cast<size_t>(maxQubitIndex) + 1);
+  const auto maxBitIndex = usedBits.empty() ? 0U : *usedBits.rbegin();
   qc.addClassicalRegister(static_cast<size_t>(maxBitIndex) + 1);
 
   return qc;
-- 
2.43.0


From 8278a009edd2aaedfe19936af76afcbd2c8ae67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:39 +0000
Subject: [PATCH 076/142] fix: handle symbolic operations in isDynamic

---
 src/ir/QuantumComputation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index 9a4e743..45d5fd9 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -1268,7 +1268,7 @@ bool isDynamicCircuit(const std::unique_ptr<Operation>* op,
     return true;
   }
 
-  if (it->isStandardOperation()) {
+  if (it->isStandardOperation() || it->isSymbolicOperation()) {
     // Whenever a qubit has already been measured, the circuit is dynamic
     const auto& usedQubits = it->getUsedQubits();
     return std::any_of(usedQubits.cbegin(), usedQubits.cend(),
-- 
2.43.0


From ead4e862d5077d777ffdc8b13099863b5081be1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:39 +0000
Subject: [PATCH 077/142] fix: provide enough bits when appending measurements

---
 src/ir/QuantumComputation.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index 45d5fd9..79e8891 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -947,16 +947,20 @@ QuantumComputation::unifyQuantumRegisters(const std::string& regName) {
 void QuantumComputation::appendMeasurementsAccordingToOutputPermutation(
     const std::string& registerName) {
   // ensure that the circuit contains enough classical registers
+  const auto nbits =
+      outputPermutation.empty()
+          ? 0U
+          : static_cast<std::size_t>(outputPermutation.maxValue()) + 1U;
   if (classicalRegisters.empty()) {
     // in case there are no registers, create a new one
-    addClassicalRegister(outputPermutation.size(), registerName);
-  } else if (nclassics < outputPermutation.size()) {
+    addClassicalRegister(nbits, registerName);
+  } else if (nclassics < nbits) {
     if (classicalRegisters.find(registerName) != classicalRegisters.end()) {
       throw std::runtime_error(
           "[appendMeasurementsAccordingToOutputPermutation] Register " +
           registerName + " already exists but is too small");
     }
-    addClassicalRegister(outputPermutation.size() - nclassics, registerName);
+    addClassicalRegister(nbits - nclassics, registerName);
   }
   barrier();
   // append measurements according to output permutation
-- 
2.43.0


From 6480f642482101f461caae066ef83b86ec83619f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:39 +0000
Subject: [PATCH 078/142] fix: clear ancillary flags when unifying quantum
 registers

---
 src/ir/QuantumComputation.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index 79e8891..1621eb6 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -940,6 +940,7 @@ QuantumComputation::unifyQuantumRegisters(const std::string& regName) {
   quantumRegisters.clear();
   nqubits += nancillae;
   nancillae = 0;
+  ancillary.assign(ancillary.size(), false);
   quantumRegisters.try_emplace(regName, 0, nqubits, regName);
   return quantumRegisters.at(regName);
 }
-- 
2.43.0


From 32c91fe951da4b4ae21b58e4f346ade87efdf336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:39 +0000
Subject: [PATCH 079/142] fix: check the range of ancillary and garbage qubits

---
 include/mqt-core/ir/QuantumComputation.hpp | 4 ++--
 src/ir/QuantumComputation.cpp              | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/mqt-core/ir/QuantumComputation.hpp b/include/mqt-core/ir/QuantumComputation.hpp
index bbd9a2d..6ad8dff 100644
--- a/include/mqt-core/ir/QuantumComputation.hpp
+++ b/include/mqt-core/ir/QuantumComputation.hpp
@@ -158,7 +158,7 @@ public:
   [[nodiscard]] bool physicalQubitIsAncillary(Qubit physicalQubitIndex) const;
   [[nodiscard]] bool
   logicalQubitIsAncillary(const Qubit logicalQubitIndex) const {
-    return ancillary[logicalQubitIndex];
+    return ancillary.at(logicalQubitIndex);
   }
   /**
    * @brief Sets the given logical qubit to be ancillary
@@ -181,7 +181,7 @@ public:
                                  Qubit maxLogicalQubitIndex);
   [[nodiscard]] bool
   logicalQubitIsGarbage(const Qubit logicalQubitIndex) const {
-    return garbage[logicalQubitIndex];
+    return garbage.at(logicalQubitIndex);
   }
   void setLogicalQubitGarbage(Qubit logicalQubitIndex);
   /**
diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index 1621eb6..42187f9 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -863,7 +863,7 @@ void QuantumComputation::setLogicalQubitAncillary(
 
   nqubits--;
   nancillae++;
-  ancillary[logicalQubitIndex] = true;
+  ancillary.at(logicalQubitIndex) = true;
 }
 
 void QuantumComputation::setLogicalQubitsAncillary(
@@ -874,7 +874,7 @@ void QuantumComputation::setLogicalQubitsAncillary(
 }
 
 void QuantumComputation::setLogicalQubitGarbage(const Qubit logicalQubitIndex) {
-  garbage[logicalQubitIndex] = true;
+  garbage.at(logicalQubitIndex) = true;
   // setting a logical qubit garbage also means removing it from the output
   // permutation if it was present before
   for (auto it = outputPermutation.begin(); it != outputPermutation.end();
-- 
2.43.0


From fbd0add8c9d39610d12d1d23e02f3c5973367713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:39 +0000
Subject: [PATCH 080/142] fix: reset the complete state of a circuit

---
 src/ir/QuantumComputation.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index 42187f9..e061a78 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -734,6 +734,10 @@ void QuantumComputation::reset() {
   ancillaRegisters.clear();
   initialLayout.clear();
   outputPermutation.clear();
+  ancillary.clear();
+  garbage.clear();
+  globalPhase = 0.;
+  occurringVariables.clear();
 }
 
 void QuantumComputation::dump(const std::string& filename,
-- 
2.43.0


From ff45840fc2fa017152a6c67e86f13400064c8008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:50 +0000
Subject: [PATCH 081/142] fix: size depth and last-operation checks by the
 physical qubits

---
 src/ir/QuantumComputation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index e061a78..287261a 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -240,7 +240,7 @@ std::size_t QuantumComputation::getDepth() const {
     return 0U;
   }
 
-  std::vector<std::size_t> depths(getNqubits(), 0U);
+  std::vector<std::size_t> depths(getHighestPhysicalQubitIndex() + 1, 0U);
   for (const auto& op : ops) {
     op->addDepthContribution(depths);
   }
@@ -916,7 +916,7 @@ bool QuantumComputation::isLastOperationOnQubit(
   }
 
   // determine which qubits the gate acts on
-  std::vector<bool> actson(nqubits + nancillae);
+  std::vector<bool> actson(getHighestPhysicalQubitIndex() + 1);
   for (std::size_t i = 0; i < actson.size(); ++i) {
     if ((*opIt)->actsOn(static_cast<Qubit>(i))) {
       actson[i] = true;
-- 
2.43.0


From 9773e28bf0b31d8274cbe1f296df488544d24471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:06 +0000
Subject: [PATCH 082/142] fix: reduce the count matching the ancillary flag
 when removing a qubit

---
 src/ir/QuantumComputation.cpp | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index 287261a..eb77a30 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -418,19 +418,15 @@ QuantumComputation::removeQubit(const Qubit logicalQubitIndex) {
   auto& reg = getQubitRegister(physicalQubitIndex);
   const auto& idx = reg.getLocalIndex(physicalQubitIndex);
 
-  if (physicalQubitIsAncillary(physicalQubitIndex)) {
-    removeQubitfromQubitRegister(ancillaRegisters, reg, idx);
-    // reduce ancilla count
+  auto& regs = physicalQubitIsAncillary(physicalQubitIndex) ? ancillaRegisters
+                                                            : quantumRegisters;
+  removeQubitfromQubitRegister(regs, reg, idx);
+
+  // reduce qubit or ancilla count
+  if (ancillary.at(logicalQubitIndex)) {
     nancillae--;
   } else {
-    removeQubitfromQubitRegister(quantumRegisters, reg, idx);
-    // reduce qubit count
-    if (ancillary.at(logicalQubitIndex)) {
-      // if the qubit is ancillary, it is not counted as a qubit
-      nancillae--;
-    } else {
-      nqubits--;
-    }
+    nqubits--;
   }
 
   // adjust initial layout permutation
-- 
2.43.0


From 21d2f2f3c05ca766a39597c5cf7418cf4cf3a5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:06 +0000
Subject: [PATCH 083/142] fix: add registers after all physical qubits

---
 src/ir/QuantumComputation.cpp | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index eb77a30..4e7b8b3 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -334,7 +334,8 @@ void QuantumComputation::initializeIOMapping() {
 const QuantumRegister&
 QuantumComputation::addQubitRegister(std::size_t nq,
                                      const std::string& regName) {
-  if (quantumRegisters.count(regName) != 0) {
+  if (quantumRegisters.count(regName) != 0 ||
+      ancillaRegisters.count(regName) != 0) {
     throw std::runtime_error("[addQubitRegister] Register " + regName +
                              " already exists");
   }
@@ -350,12 +351,14 @@ QuantumComputation::addQubitRegister(std::size_t nq,
         "qubits have been added");
   }
 
-  quantumRegisters.try_emplace(regName, static_cast<Qubit>(nqubits), nq,
-                               regName);
+  // physical qubits might not be consecutive due to qubit removals
+  const auto start = initialLayout.empty() ? 0U : initialLayout.maxKey() + 1U;
+  quantumRegisters.try_emplace(regName, start, nq, regName);
   for (std::size_t i = 0; i < nq; ++i) {
-    auto j = static_cast<Qubit>(nqubits + i);
-    initialLayout.emplace(j, j);
-    outputPermutation.emplace(j, j);
+    const auto physical = static_cast<Qubit>(start + i);
+    const auto logical = static_cast<Qubit>(nqubits + i);
+    initialLayout.emplace(physical, logical);
+    outputPermutation.emplace(physical, logical);
   }
   nqubits += nq;
   ancillary.resize(nqubits + nancillae);
@@ -385,7 +388,8 @@ QuantumComputation::addClassicalRegister(std::size_t nc,
 const QuantumRegister&
 QuantumComputation::addAncillaryRegister(std::size_t nq,
                                          const std::string& regName) {
-  if (ancillaRegisters.count(regName) != 0) {
+  if (ancillaRegisters.count(regName) != 0 ||
+      quantumRegisters.count(regName) != 0) {
     throw std::runtime_error("[addAncillaryRegister] Register " + regName +
                              " already exists");
   }
@@ -396,14 +400,17 @@ QuantumComputation::addAncillaryRegister(std::size_t nq,
   }
 
   const auto totalqubits = static_cast<Qubit>(nqubits + nancillae);
-  ancillaRegisters.try_emplace(regName, totalqubits, nq, regName);
+  // physical qubits might not be consecutive due to qubit removals
+  const auto start = initialLayout.empty() ? 0U : initialLayout.maxKey() + 1U;
+  ancillaRegisters.try_emplace(regName, start, nq, regName);
   ancillary.resize(totalqubits + nq);
   garbage.resize(totalqubits + nq);
   for (std::size_t i = 0; i < nq; ++i) {
-    auto j = static_cast<Qubit>(totalqubits + i);
-    initialLayout.emplace(j, j);
-    outputPermutation.emplace(j, j);
-    ancillary[j] = true;
+    const auto physical = static_cast<Qubit>(start + i);
+    const auto logical = static_cast<Qubit>(totalqubits + i);
+    initialLayout.emplace(physical, logical);
+    outputPermutation.emplace(physical, logical);
+    ancillary[logical] = true;
   }
   nancillae += nq;
   return ancillaRegisters.at(regName);
-- 
2.43.0


From b9907d8ef7964d5f0f9861261f2085653e60370c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:06 +0000
Subject: [PATCH 084/142] fix: handle repeated and unmapped measurements in
 initializeIOMapping

---
 src/ir/QuantumComputation.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index 4e7b8b3..8c283e9 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -273,11 +273,13 @@ void QuantumComputation::initializeIOMapping() {
         // only the first measurement of a qubit is used to determine the output
         // permutation
         if (measuredQubits.count(qubitidx) != 0) {
+          ++classicIt;
           continue;
         }
 
         const auto bitidx = *classicIt;
-        if (outputPermutationFound) {
+        if (outputPermutationFound &&
+            outputPermutation.find(qubitidx) != outputPermutation.end()) {
           // output permutation was already set before -> permute existing
           // values
           if (const auto current = outputPermutation.at(qubitidx);
-- 
2.43.0


From 26335169dd295d1045f1e246b5d9575ca8566785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:18 +0000
Subject: [PATCH 085/142] fix: collectBlocks moved operations before others on
 the same qubits

---
 src/circuit_optimizer/CircuitOptimizer.cpp | 32 ++++++++++++----------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index 7b1924b..5b39819 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -1355,7 +1355,8 @@ struct DSU {
 
   /**
    * @brief Merge two blocks together.
-   * @details The smaller block is merged into the larger block.
+   * @details The block that is located earlier in the circuit is merged into
+   * the block that is located later.
    * @param block1 first block
    * @param block2 second block
    */
@@ -1367,8 +1368,16 @@ struct DSU {
     }
     assert(currentBlockOperations[parent1] != nullptr);
     assert(currentBlockOperations[parent2] != nullptr);
-    if (currentBlockOperations[parent1]->size() <
-        currentBlockOperations[parent2]->size()) {
+    const auto* location1 = currentBlockInCircuit[parent1];
+    const auto* location2 = currentBlockInCircuit[parent2];
+    if (location1 != nullptr && location2 != nullptr) {
+      // the merged block has to be placed at the later one of both locations
+      // since other operations on its qubits might precede that location
+      if (location1 < location2) {
+        std::swap(parent1, parent2);
+      }
+    } else if (currentBlockOperations[parent1]->size() <
+               currentBlockOperations[parent2]->size()) {
       std::swap(parent1, parent2);
     }
     parent[parent2] = parent1;
@@ -1547,19 +1556,14 @@ void CircuitOptimizer::collectBlocks(QuantumComputation& qc,
         prev = q;
       }
       const auto block = dsu.findBlock(static_cast<Qubit>(prev));
-      const auto empty = dsu.blockEmpty(block);
-      if (empty) {
-        dsu.currentBlockInCircuit[block] = &(*opIt);
+      // the block has to be placed at its last operation since other operations
+      // on the qubits that newly joined the block might precede that operation
+      if (!dsu.blockEmpty(block)) {
+        (*dsu.currentBlockInCircuit[block]) =
+            std::make_unique<StandardOperation>(0, I);
       }
+      dsu.currentBlockInCircuit[block] = &(*opIt);
       dsu.currentBlockOperations[block]->emplace_back(std::move(op));
-      // if this is not the first operation in a block, remove it from the
-      // circuit
-      if (!empty) {
-        opIt = qc.erase(opIt);
-        // this can only ever be called on at least the second operation in a
-        // circuit, so it is safe to decrement the iterator here.
-        --opIt;
-      }
     }
   }
 
-- 
2.43.0


From 3593df604974454c92be9c52cb77ef1e78c3c4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:18 +0000
Subject: [PATCH 086/142] fix: eliminateResets ignored resets in nested or
 leading compound operations

---
 src/circuit_optimizer/CircuitOptimizer.cpp | 113 ++++++++++-----------
 1 file changed, 53 insertions(+), 60 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index 5b39819..dc83d82 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -574,6 +574,38 @@ bool removeFinalMeasurement(CircuitOptimizer::DAG& dag,
   }
   return false;
 }
+
+void eliminateResets(QuantumComputation& qc, QuantumComputation::iterator begin,
+                     const std::function<QuantumComputation::iterator()>& end,
+                     const std::function<QuantumComputation::iterator(
+                         QuantumComputation::iterator)>& erase,
+                     std::map<Qubit, Qubit>& replacementMap) {
+  for (auto it = begin; it != end();) {
+    auto& op = *it;
+    if (op->getType() == Reset) {
+      for (const auto& target : op->getTargets()) {
+        auto indexAddQubit = static_cast<Qubit>(qc.getNqubits());
+        qc.addQubit(indexAddQubit, indexAddQubit, indexAddQubit);
+        replacementMap.insert_or_assign(target, indexAddQubit);
+      }
+      it = erase(it);
+      continue;
+    }
+    if (auto* compOp = dynamic_cast<CompoundOperation*>(op.get());
+        compOp != nullptr) {
+      eliminateResets(
+          qc, compOp->begin(), [&compOp] { return compOp->end(); },
+          [&compOp](auto iter) { return compOp->erase(iter); }, replacementMap);
+    } else if (op->isStandardOperation() ||
+               op->isClassicControlledOperation()) {
+      changeTargets(op->getTargets(), replacementMap);
+      changeControls(op->getControls(), replacementMap);
+    } else if (op->isNonUnitaryOperation()) {
+      changeTargets(op->getTargets(), replacementMap);
+    }
+    ++it;
+  }
+}
 } // namespace
 
 void CircuitOptimizer::removeFinalMeasurements(QuantumComputation& qc) {
@@ -690,68 +722,29 @@ void CircuitOptimizer::eliminateResets(QuantumComputation& qc) {
   //                                  c: 2/══════╩══════════╩═
   //                                             0          1
   auto replacementMap = std::map<Qubit, Qubit>();
-  auto it = qc.begin();
-  while (it != qc.end()) {
-    if ((*it)->getType() == Reset) {
-      for (const auto& target : (*it)->getTargets()) {
-        auto indexAddQubit = static_cast<Qubit>(qc.getNqubits());
-        qc.addQubit(indexAddQubit, indexAddQubit, indexAddQubit);
-        auto oldReset = replacementMap.find(target);
-        if (oldReset != replacementMap.end()) {
-          oldReset->second = indexAddQubit;
-        } else {
-          replacementMap.try_emplace(target, indexAddQubit);
-        }
-      }
-      it = qc.erase(it);
-    } else if (!replacementMap.empty()) {
-      if ((*it)->isCompoundOperation()) {
-        auto& compOp = dynamic_cast<CompoundOperation&>(**it);
-        auto compOpIt = compOp.begin();
-        while (compOpIt != compOp.end()) {
-          if ((*compOpIt)->getType() == Reset) {
-            for (const auto& compTarget : (*compOpIt)->getTargets()) {
-              auto indexAddQubit = static_cast<Qubit>(qc.getNqubits());
-              qc.addQubit(indexAddQubit, indexAddQubit, indexAddQubit);
-              if (auto oldReset = replacementMap.find(compTarget);
-                  oldReset != replacementMap.end()) {
-                oldReset->second = indexAddQubit;
-              } else {
-                replacementMap.try_emplace(compTarget, indexAddQubit);
-              }
-            }
-            compOpIt = compOp.erase(compOpIt);
-          } else {
-            if ((*compOpIt)->isStandardOperation() ||
-                (*compOpIt)->isClassicControlledOperation()) {
-              auto& targets = (*compOpIt)->getTargets();
-              auto& controls = (*compOpIt)->getControls();
-              changeTargets(targets, replacementMap);
-              changeControls(controls, replacementMap);
-            } else if ((*compOpIt)->isNonUnitaryOperation()) {
-              auto& targets = (*compOpIt)->getTargets();
-              changeTargets(targets, replacementMap);
-            }
-            ++compOpIt;
-          }
-        }
-      }
-      if ((*it)->isStandardOperation() ||
-          (*it)->isClassicControlledOperation()) {
-        auto& targets = (*it)->getTargets();
-        auto& controls = (*it)->getControls();
-        changeTargets(targets, replacementMap);
-        changeControls(controls, replacementMap);
-      } else if ((*it)->isNonUnitaryOperation()) {
-        auto& targets = (*it)->getTargets();
-        changeTargets(targets, replacementMap);
-      }
-      ++it;
-    } else {
-      ++it;
-    }
+  ::qc::eliminateResets(
+      qc, qc.begin(), [&qc] { return qc.end(); },
+      [&qc](auto it) { return qc.erase(it); }, replacementMap);
+}
+
+namespace {
+// check whether an operation does not change the value of a qubit in any
+// computational basis state
+bool preservesBasisStates(const Operation& op, const Qubit q) {
+  if (!op.actsOn(q)) {
+    return true;
   }
+  if (const auto* compOp = dynamic_cast<const CompoundOperation*>(&op);
+      compOp != nullptr) {
+    return std::all_of(compOp->begin(), compOp->end(), [q](const auto& o) {
+      return preservesBasisStates(*o, q);
+    });
+  }
+  const auto& targets = op.getTargets();
+  return op.isDiagonalGate() ||
+         std::find(targets.begin(), targets.end(), q) == targets.end();
 }
+} // namespace
 
 void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
   //      ┌───┐┌─┐                         ┌───┐     ┌─┐
-- 
2.43.0


From 4772cad93536307c11f11d1a59f33661a0bee774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:18 +0000
Subject: [PATCH 087/142] fix: eliminateResets left negative controls on the
 replaced qubit

---
 src/circuit_optimizer/CircuitOptimizer.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index dc83d82..a8f7b34 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -703,11 +703,10 @@ void changeControls(Controls& controls,
 
   // iterate over the replacement map and see if any control matches
   for (const auto& [from, to] : replacementMap) {
-    auto controlIt = controls.find(from);
-    if (controlIt != controls.end()) {
-      const auto controlType = controlIt->type;
-      controls.erase(controlIt);
-      controls.insert(Control{to, controlType});
+    for (const auto type : {Control::Type::Pos, Control::Type::Neg}) {
+      if (controls.erase(Control{from, type}) != 0) {
+        controls.insert(Control{to, type});
+      }
     }
   }
 }
-- 
2.43.0


From 37c837977c52ce4e136c1b8b4e200a5b5d5b78e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:18 +0000
Subject: [PATCH 088/142] fix: decomposeSWAP dropped the controls of controlled
 SWAPs

---
 src/circuit_optimizer/CircuitOptimizer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index a8f7b34..28cabd9 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -626,7 +626,7 @@ void CircuitOptimizer::decomposeSWAP(QuantumComputation& qc,
   auto it = qc.begin();
   while (it != qc.end()) {
     if ((*it)->isStandardOperation()) {
-      if ((*it)->getType() == SWAP) {
+      if ((*it)->getType() == SWAP && !(*it)->isControlled()) {
         const auto targets = (*it)->getTargets();
         it = qc.erase(it);
         it = qc.insert(it, std::make_unique<StandardOperation>(
@@ -655,7 +655,8 @@ void CircuitOptimizer::decomposeSWAP(QuantumComputation& qc,
       auto& compOp = dynamic_cast<CompoundOperation&>(**it);
       auto cit = compOp.begin();
       while (cit != compOp.end()) {
-        if ((*cit)->isStandardOperation() && (*cit)->getType() == SWAP) {
+        if ((*cit)->isStandardOperation() && (*cit)->getType() == SWAP &&
+            !(*cit)->isControlled()) {
           const auto targets = (*cit)->getTargets();
           cit = compOp.erase(cit);
           cit = compOp.insert<StandardOperation>(cit, Control{targets[0]},
-- 
2.43.0


From 3e20d0ebff23c7f2091bb5511dce2806185b6ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:18 +0000
Subject: [PATCH 089/142] fix: removeFinalMeasurements removed measurements
 that are still used

---
 src/circuit_optimizer/CircuitOptimizer.cpp | 184 +++++----------------
 1 file changed, 45 insertions(+), 139 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index 28cabd9..cf6506f 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -462,161 +462,67 @@ void CircuitOptimizer::removeDiagonalGatesBeforeMeasure(
 }
 
 namespace {
-bool removeFinalMeasurement(CircuitOptimizer::DAG& dag,
-                            CircuitOptimizer::DAGReverseIterators& dagIterators,
-                            Qubit idx,
-                            const CircuitOptimizer::DAGReverseIterator& it,
-                            Operation* op);
-
-void removeFinalMeasurementsRecursive(
-    CircuitOptimizer::DAG& dag,
-    CircuitOptimizer::DAGReverseIterators& dagIterators, Qubit idx,
-    const Operation* until) {
-  if (dagIterators.at(idx) == dag.at(idx).rend()) { // we reached the end
-    if (idx < static_cast<Qubit>(dag.size() - 1)) {
-      removeFinalMeasurementsRecursive(dag, dagIterators, idx + 1, nullptr);
+/**
+ * @brief Mark all final measurements and barriers of an operation as identity.
+ * @details The operations of a circuit are expected to be visited in reverse.
+ * @param op the operation to consider
+ * @param blocked marks all qubits that are used by a remaining operation later
+ * in the circuit
+ * @param readBits all classical bits that are read later in the circuit
+ */
+void removeFinalMeasurement(Operation& op, std::vector<bool>& blocked,
+                            std::unordered_set<Bit>& readBits) {
+  if (op.isCompoundOperation()) {
+    auto& compOp = dynamic_cast<CompoundOperation&>(op);
+    for (auto it = compOp.rbegin(); it != compOp.rend(); ++it) {
+      removeFinalMeasurement(**it, blocked, readBits);
     }
     return;
   }
-  // check if desired operation was reached
-  if (until != nullptr) {
-    if ((*dagIterators.at(idx))->get() == until) {
-      return;
-    }
-  }
-  auto& it = dagIterators.at(idx);
-  while (it != dag.at(idx).rend()) {
-    if (until != nullptr) {
-      if ((*dagIterators.at(idx))->get() == until) {
-        break;
-      }
-    }
-    auto* op = (*it)->get();
-    if (op->getType() == Measure || op->getType() == Barrier) {
-      const bool onlyMeasurement =
-          removeFinalMeasurement(dag, dagIterators, idx, it, op);
-      if (onlyMeasurement) {
-        for (const auto& target : op->getTargets()) {
-          if (dagIterators.at(target) == dag.at(target).rend()) {
-            break;
-          }
-          ++(dagIterators.at(target));
-        }
-      }
-    } else if (op->isCompoundOperation() && op->isNonUnitaryOperation()) {
-      // iterate over all gates of compound operation and upon success increase
-      // all corresponding iterators
-      auto* compOp = dynamic_cast<CompoundOperation*>(op);
-      bool onlyMeasurement = true;
-      auto cit = compOp->rbegin();
-      while (cit != compOp->rend()) {
-        auto* cop = cit->get();
-        if (cop->getNtargets() > 0 && cop->getTargets()[0] != idx) {
-          ++cit;
-          continue;
-        }
-        onlyMeasurement =
-            removeFinalMeasurement(dag, dagIterators, idx, it, cop);
-        if (!onlyMeasurement) {
-          break;
-        }
-        ++cit;
-      }
-      if (onlyMeasurement) {
-        ++(dagIterators.at(idx));
-      }
-    } else {
-      // not a measurement, we are done
-      dagIterators.at(idx) = dag.at(idx).rend();
-      break;
-    }
+
+  const auto usedQubits = op.getUsedQubits();
+  auto removable = (op.getType() == Measure || op.getType() == Barrier) &&
+                   std::none_of(usedQubits.begin(), usedQubits.end(),
+                                [&](const auto q) { return blocked.at(q); });
+  if (const auto* measure = dynamic_cast<NonUnitaryOperation*>(&op);
+      removable && measure != nullptr) {
+    const auto& classics = measure->getClassics();
+    removable =
+        std::none_of(classics.begin(), classics.end(),
+                     [&](const auto bit) { return readBits.count(bit) != 0; });
   }
-  if (dagIterators.at(idx) == dag.at(idx).rend() &&
-      idx < static_cast<Qubit>(dag.size() - 1)) {
-    removeFinalMeasurementsRecursive(dag, dagIterators, idx + 1, nullptr);
+  if (removable) {
+    // set operation to identity so that it can be collected by the
+    // removeIdentities pass
+    op.setGate(I);
+    return;
   }
-}
 
-bool removeFinalMeasurement(CircuitOptimizer::DAG& dag,
-                            CircuitOptimizer::DAGReverseIterators& dagIterators,
-                            const Qubit idx,
-                            const CircuitOptimizer::DAGReverseIterator& it,
-                            Operation* op) {
-  if (op->getNtargets() != 0) {
-    // need to check all targets
-    bool onlyMeasurements = true;
-    for (const auto& target : op->getTargets()) {
-      if (target == idx) {
-        continue;
-      }
-      if (dagIterators.at(target) == dag.at(target).rend()) {
-        onlyMeasurements = false;
-        break;
-      }
-      // recursive call at target with this operation as goal
-      removeFinalMeasurementsRecursive(dag, dagIterators, target, (*it)->get());
-      // check if iteration of target qubit was successful
-      if (dagIterators.at(target) == dag.at(target).rend() ||
-          *dagIterators.at(target) != *it) {
-        onlyMeasurements = false;
-        break;
-      }
-    }
-    if (!onlyMeasurements) {
-      // end qubit
-      dagIterators.at(idx) = dag.at(idx).rend();
-    } else {
-      // set operation to identity so that it can be collected by the
-      // removeIdentities pass
-      op->setGate(I);
-    }
-    return onlyMeasurements;
+  for (const auto q : usedQubits) {
+    blocked.at(q) = true;
   }
-  return false;
-}
-
-void eliminateResets(QuantumComputation& qc, QuantumComputation::iterator begin,
-                     const std::function<QuantumComputation::iterator()>& end,
-                     const std::function<QuantumComputation::iterator(
-                         QuantumComputation::iterator)>& erase,
-                     std::map<Qubit, Qubit>& replacementMap) {
-  for (auto it = begin; it != end();) {
-    auto& op = *it;
-    if (op->getType() == Reset) {
-      for (const auto& target : op->getTargets()) {
-        auto indexAddQubit = static_cast<Qubit>(qc.getNqubits());
-        qc.addQubit(indexAddQubit, indexAddQubit, indexAddQubit);
-        replacementMap.insert_or_assign(target, indexAddQubit);
+  if (const auto* classicOp = dynamic_cast<ClassicControlledOperation*>(&op);
+      classicOp != nullptr) {
+    if (const auto& controlBit = classicOp->getControlBit();
+        controlBit.has_value()) {
+      readBits.emplace(*controlBit);
+    } else if (const auto& controlRegister = classicOp->getControlRegister();
+               controlRegister.has_value()) {
+      for (std::size_t i = 0; i < controlRegister->getSize(); ++i) {
+        readBits.emplace(controlRegister->getStartIndex() + i);
       }
-      it = erase(it);
-      continue;
-    }
-    if (auto* compOp = dynamic_cast<CompoundOperation*>(op.get());
-        compOp != nullptr) {
-      eliminateResets(
-          qc, compOp->begin(), [&compOp] { return compOp->end(); },
-          [&compOp](auto iter) { return compOp->erase(iter); }, replacementMap);
-    } else if (op->isStandardOperation() ||
-               op->isClassicControlledOperation()) {
-      changeTargets(op->getTargets(), replacementMap);
-      changeControls(op->getControls(), replacementMap);
-    } else if (op->isNonUnitaryOperation()) {
-      changeTargets(op->getTargets(), replacementMap);
     }
-    ++it;
   }
 }
 } // namespace
 
 void CircuitOptimizer::removeFinalMeasurements(QuantumComputation& qc) {
-  auto dag = constructDAG(qc);
-  DAGReverseIterators dagIterators{dag.size()};
-  for (size_t q = 0; q < dag.size(); ++q) {
-    dagIterators.at(q) = (dag.at(q).rbegin());
+  std::vector<bool> blocked(qc.getHighestPhysicalQubitIndex() + 1, false);
+  std::unordered_set<Bit> readBits{};
+  for (auto it = qc.rbegin(); it != qc.rend(); ++it) {
+    removeFinalMeasurement(**it, blocked, readBits);
   }
 
-  removeFinalMeasurementsRecursive(dag, dagIterators, 0, nullptr);
-
   removeIdentities(qc);
 }
 
-- 
2.43.0


From 186ed08ca0739428c426384894c0129b43a14e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:18 +0000
Subject: [PATCH 090/142] fix: removeDiagonalGatesBeforeMeasure removed gates
 acting on unmeasured qubits

---
 src/circuit_optimizer/CircuitOptimizer.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index cf6506f..e8337e2 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -346,11 +346,11 @@ void removeDiagonalGatesBeforeMeasureRecursive(
       const bool onlyDiagonalGates =
           removeDiagonalGate(dag, dagIterators, idx, it, cop);
       if (onlyDiagonalGates) {
-        for (const auto& control : cop->getControls()) {
-          ++(dagIterators.at(control.qubit));
-        }
-        for (const auto& target : cop->getTargets()) {
-          ++(dagIterators.at(target));
+        const auto usedQubits = op->getUsedQubits();
+        // also remove the condition
+        **it = std::make_unique<StandardOperation>(idx, I);
+        for (const auto q : usedQubits) {
+          ++(dagIterators.at(q));
         }
       }
     } else if (op->isNonUnitaryOperation()) {
@@ -379,7 +379,9 @@ bool removeDiagonalGate(CircuitOptimizer::DAG& dag,
     return false;
   }
 
-  if (op->getNcontrols() != 0) {
+  const auto usedQubits = op->getUsedQubits();
+  if (usedQubits.size() > 1 ||
+      (usedQubits.size() == 1 && *usedQubits.begin() != idx)) {
     // need to check all controls and targets
     bool onlyDiagonalGates = true;
     for (const auto& control : op->getControls()) {
@@ -400,7 +402,8 @@ bool removeDiagonalGate(CircuitOptimizer::DAG& dag,
       removeDiagonalGatesBeforeMeasureRecursive(dag, dagIterators, controlQubit,
                                                 (*it)->get());
       // check if iteration of control qubit was successful
-      if (*dagIterators.at(controlQubit) != *it) {
+      if (dagIterators.at(controlQubit) == dag.at(controlQubit).rend() ||
+          *dagIterators.at(controlQubit) != *it) {
         onlyDiagonalGates = false;
         break;
       }
@@ -417,7 +420,8 @@ bool removeDiagonalGate(CircuitOptimizer::DAG& dag,
       removeDiagonalGatesBeforeMeasureRecursive(dag, dagIterators, target,
                                                 (*it)->get());
       // check if iteration of target qubit was successful
-      if (*dagIterators.at(target) != *it) {
+      if (dagIterators.at(target) == dag.at(target).rend() ||
+          *dagIterators.at(target) != *it) {
         onlyDiagonalGates = false;
         break;
       }
-- 
2.43.0


From baa22ed794add734ceb495e9f1a68ac7b2a6d35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:18 +0000
Subject: [PATCH 091/142] fix: singleQubitGateFusion crashed on global phases
 and fused gates into measurements

---
 src/circuit_optimizer/CircuitOptimizer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index e8337e2..e40dcb2 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -186,7 +186,7 @@ void CircuitOptimizer::singleQubitGateFusion(QuantumComputation& qc) {
   for (auto& it : qc) {
     // not a single-qubit operation
     if (!it->isStandardOperation() || !it->getControls().empty() ||
-        it->getTargets().size() > 1) {
+        it->getTargets().size() != 1) {
       addToDag(dag, &it);
       continue;
     }
@@ -204,7 +204,8 @@ void CircuitOptimizer::singleQubitGateFusion(QuantumComputation& qc) {
 
     // no single qubit op to fuse with operation
     if (!(*op)->isCompoundOperation() &&
-        (!(*op)->getControls().empty() || (*op)->getTargets().size() > 1)) {
+        (!(*op)->isStandardOperation() || !(*op)->getControls().empty() ||
+         (*op)->getTargets().size() > 1)) {
       addToDag(dag, &it);
       continue;
     }
-- 
2.43.0


From 77d4041b32a606c0f164d1af0c68ca1f55d35149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:18 +0000
Subject: [PATCH 092/142] fix: deferMeasurements changed what conditional
 operations compute

---
 src/circuit_optimizer/CircuitOptimizer.cpp | 367 ++++++++++++---------
 1 file changed, 220 insertions(+), 147 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index e40dcb2..5662288 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -27,6 +27,7 @@
 #include <iterator>
 #include <map>
 #include <memory>
+#include <optional>
 #include <set>
 #include <sstream>
 #include <stdexcept>
@@ -622,6 +623,38 @@ void changeControls(Controls& controls,
     }
   }
 }
+
+void eliminateResets(QuantumComputation& qc, QuantumComputation::iterator begin,
+                     const std::function<QuantumComputation::iterator()>& end,
+                     const std::function<QuantumComputation::iterator(
+                         QuantumComputation::iterator)>& erase,
+                     std::map<Qubit, Qubit>& replacementMap) {
+  for (auto it = begin; it != end();) {
+    auto& op = *it;
+    if (op->getType() == Reset) {
+      for (const auto& target : op->getTargets()) {
+        auto indexAddQubit = static_cast<Qubit>(qc.getNqubits());
+        qc.addQubit(indexAddQubit, indexAddQubit, indexAddQubit);
+        replacementMap.insert_or_assign(target, indexAddQubit);
+      }
+      it = erase(it);
+      continue;
+    }
+    if (auto* compOp = dynamic_cast<CompoundOperation*>(op.get());
+        compOp != nullptr) {
+      eliminateResets(
+          qc, compOp->begin(), [&compOp] { return compOp->end(); },
+          [&compOp](auto iter) { return compOp->erase(iter); }, replacementMap);
+    } else if (op->isStandardOperation() ||
+               op->isClassicControlledOperation()) {
+      changeTargets(op->getTargets(), replacementMap);
+      changeControls(op->getControls(), replacementMap);
+    } else if (op->isNonUnitaryOperation()) {
+      changeTargets(op->getTargets(), replacementMap);
+    }
+    ++it;
+  }
+}
 } // namespace
 
 void CircuitOptimizer::eliminateResets(QuantumComputation& qc) {
@@ -666,182 +699,222 @@ void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
   //            ║ ┌──╨──┐             c: 2/═══════════╩═
   // c: 2/══════╩═╡ = 1 ╞                             0
   //            0 └─────┘
-  std::unordered_map<Qubit, std::size_t> qubitsToAddMeasurements{};
+  std::vector<std::pair<Qubit, Bit>> measurementsToAdd{};
   auto it = qc.begin();
   while (it != qc.end()) {
-    if (const auto* measurement = dynamic_cast<NonUnitaryOperation*>(it->get());
-        measurement != nullptr && measurement->getType() == Measure) {
-      const auto targets = measurement->getTargets();
-      const auto classics = measurement->getClassics();
+    const auto* measurement = dynamic_cast<NonUnitaryOperation*>(it->get());
+    if (measurement == nullptr || measurement->getType() != Measure) {
+      ++it;
+      continue;
+    }
 
-      if (targets.size() != 1 && classics.size() != 1) {
-        throw std::runtime_error(
-            "Deferring measurements with more than 1 target is not yet "
-            "supported. Try decomposing your measurements.");
-      }
+    const auto targets = measurement->getTargets();
+    const auto classics = measurement->getClassics();
 
-      // if this is the last operation, nothing has to be done
-      if (*it == qc.back()) {
-        break;
-      }
+    if (targets.size() != 1 && classics.size() != 1) {
+      throw std::runtime_error(
+          "Deferring measurements with more than 1 target is not yet "
+          "supported. Try decomposing your measurements.");
+    }
 
-      const auto measurementQubit = targets[0];
-      const auto measurementBit = classics[0];
+    // if this is the last operation, nothing has to be done
+    if (*it == qc.back()) {
+      break;
+    }
 
-      // remember q->c for adding measurements later
-      qubitsToAddMeasurements[measurementQubit] = measurementBit;
+    const auto measurementQubit = targets[0];
+    const auto measurementBit = classics[0];
+
+    // remove the measurement from the vector of operations
+    it = qc.erase(it);
+
+    // the following works on indices because inserting and erasing operations
+    // invalidates iterators
+    const auto start = static_cast<std::size_t>(std::distance(qc.begin(), it));
+    // the first operation that changes the value of the measured qubit.
+    // classic-controlled operations have to be inserted before that operation.
+    std::optional<std::size_t> changeIdx{};
+    auto overwritten = false;
+
+    // iterate over all subsequent operations
+    for (auto idx = start; idx < qc.getNops(); ++idx) {
+      const auto* operation = qc.at(idx).get();
+      if (operation->isUnitary()) {
+        if (!changeIdx.has_value() &&
+            !preservesBasisStates(*operation, measurementQubit)) {
+          changeIdx = idx;
+        }
+        continue;
+      }
 
-      // remove the measurement from the vector of operations
-      it = qc.erase(it);
+      if (operation->getType() == Reset) {
+        throw std::runtime_error(
+            "Reset encountered in deferMeasurements routine. Please use the "
+            "eliminateResets method before deferring measurements.");
+      }
 
-      // starting from the next operation after the measurement (if there is
-      // any)
-      auto opIt = it;
-      auto currentInsertionPoint = it;
-
-      // iterate over all subsequent operations
-      while (opIt != qc.end()) {
-        const auto* operation = opIt->get();
-        if (operation->isUnitary()) {
-          // if an operation does not act on the measured qubit, the insert
-          // location for potential operations has to be updated
-          if (!operation->actsOn(measurementQubit)) {
-            ++currentInsertionPoint;
-          }
-          ++opIt;
-          continue;
-        }
+      if (operation->isCompoundOperation()) {
+        throw std::runtime_error(
+            "Non-unitary compound operation encountered in deferMeasurements "
+            "routine. Please use the flattenOperations method before deferring "
+            "measurements.");
+      }
 
-        if (operation->getType() == Reset) {
-          throw std::runtime_error(
-              "Reset encountered in deferMeasurements routine. Please use the "
-              "eliminateResets method before deferring measurements.");
+      if (const auto* measurement2 =
+              dynamic_cast<const NonUnitaryOperation*>(operation);
+          measurement2 != nullptr && operation->getType() == Measure) {
+        // if the result is overwritten a breakpoint has been reached
+        const auto& classics2 = measurement2->getClassics();
+        if (std::find(classics2.begin(), classics2.end(), measurementBit) !=
+            classics2.end()) {
+          overwritten = true;
+          break;
         }
+        continue;
+      }
 
-        if (const auto* measurement2 =
-                dynamic_cast<NonUnitaryOperation*>(opIt->get());
-            measurement2 != nullptr && operation->getType() == Measure) {
-          const auto& targets2 = measurement2->getTargets();
-          const auto& classics2 = measurement2->getClassics();
-
-          // if this is the same measurement a breakpoint has been reached
-          if (targets == targets2 && classics == classics2) {
-            break;
-          }
+      const auto* classicOp =
+          dynamic_cast<const ClassicControlledOperation*>(operation);
+      if (classicOp == nullptr) {
+        continue;
+      }
 
-          ++currentInsertionPoint;
-          ++opIt;
-          continue;
+      Bit cBit = 0;
+      if (const auto& controlRegister = classicOp->getControlRegister();
+          controlRegister.has_value()) {
+        assert(!classicOp->getControlBit().has_value());
+        if (controlRegister->getSize() != 1) {
+          throw std::runtime_error(
+              "Classic-controlled operations targeted at more than one bit "
+              "are currently not supported. Try decomposing the operation "
+              "into individual contributions.");
         }
+        cBit = controlRegister->getStartIndex();
+      }
+      if (const auto& controlBit = classicOp->getControlBit();
+          controlBit.has_value()) {
+        assert(!classicOp->getControlRegister().has_value());
+        cBit = controlBit.value();
+      }
 
-        if (const auto* classicOp =
-                dynamic_cast<ClassicControlledOperation*>(opIt->get());
-            classicOp != nullptr) {
-          const auto& expectedValue = classicOp->getExpectedValue();
-
-          Bit cBit = 0;
-          if (const auto& controlRegister = classicOp->getControlRegister();
-              controlRegister.has_value()) {
-            assert(!classicOp->getControlBit().has_value());
-            if (controlRegister->getSize() != 1) {
-              throw std::runtime_error(
-                  "Classic-controlled operations targeted at more than one bit "
-                  "are currently not supported. Try decomposing the operation "
-                  "into individual contributions.");
-            }
-            cBit = controlRegister->getStartIndex();
-          }
-          if (const auto& controlBit = classicOp->getControlBit();
-              controlBit.has_value()) {
-            assert(!classicOp->getControlRegister().has_value());
-            cBit = controlBit.value();
-          }
+      // if this is not the classical bit that is measured, continue
+      if (cBit != measurementBit) {
+        if (!changeIdx.has_value() &&
+            !preservesBasisStates(*classicOp->getOperation(),
+                                  measurementQubit)) {
+          changeIdx = idx;
+        }
+        continue;
+      }
 
-          // if this is not the classical bit that is measured, continue
-          if (cBit != measurementBit) {
-            if (!operation->actsOn(measurementQubit)) {
-              ++currentInsertionPoint;
-            }
-            ++opIt;
-            continue;
-          }
+      // get the underlying operation
+      const auto* standardOp =
+          dynamic_cast<const StandardOperation*>(classicOp->getOperation());
+      if (standardOp == nullptr) {
+        std::stringstream ss{};
+        ss << "Underlying operation of classic-controlled operation is "
+              "not a StandardOperation.\n";
+        classicOp->print(ss, qc.getNqubits());
+        throw std::runtime_error(ss.str());
+      }
 
-          // get the underlying operation
-          const auto* standardOp =
-              dynamic_cast<StandardOperation*>(classicOp->getOperation());
-          if (standardOp == nullptr) {
-            std::stringstream ss{};
-            ss << "Underlying operation of classic-controlled operation is "
-                  "not a StandardOperation.\n";
-            classicOp->print(ss, qc.getNqubits());
-            throw std::runtime_error(ss.str());
-          }
+      // get all the necessary information for reconstructing the
+      // operation
+      const auto type = standardOp->getType();
+      const auto targs = standardOp->getTargets();
+      for (const auto& target : targs) {
+        if (target == measurementQubit) {
+          throw std::runtime_error(
+              "Implicit reset operation in circuit detected. Measuring a "
+              "qubit and then targeting the same qubit with a "
+              "classic-controlled operation is not allowed at the "
+              "moment.");
+        }
+      }
 
-          // get all the necessary information for reconstructing the
-          // operation
-          const auto type = standardOp->getType();
-          const auto targs = standardOp->getTargets();
-          for (const auto& target : targs) {
-            if (target == measurementQubit) {
+      // the operation may only be moved in front of operations that act on
+      // different qubits
+      if (changeIdx.has_value()) {
+        for (auto i = *changeIdx; i < idx; ++i) {
+          for (const auto q : standardOp->getUsedQubits()) {
+            if (qc.at(i)->actsOn(q)) {
               throw std::runtime_error(
-                  "Implicit reset operation in circuit detected. Measuring a "
-                  "qubit and then targeting the same qubit with a "
-                  "classic-controlled operation is not allowed at the "
-                  "moment.");
+                  "Classic-controlled operation that cannot be moved to the "
+                  "corresponding measurement encountered in "
+                  "deferMeasurements routine.");
             }
           }
+        }
+      }
 
-          // determine the appropriate control to add
-          auto controls = standardOp->getControls();
-          const auto controlQubit = measurementQubit;
-          const auto controlType =
-              (expectedValue == 1) ? Control::Type::Pos : Control::Type::Neg;
-          controls.emplace(controlQubit, controlType);
-
-          const auto parameters = standardOp->getParameter();
-
-          // remove the classic-controlled operation
-          // carefully handle iterator invalidation.
-          // if the current insertion point is the same as the current
-          // iterator the insertion point has to be updated to the new
-          // operation as well.
-          auto itInvalidated = (it >= opIt);
-          const auto insertionPointInvalidated =
-              (currentInsertionPoint >= opIt);
-
-          opIt = qc.erase(opIt);
-
-          if (itInvalidated) {
-            it = opIt;
-          }
-          if (insertionPointInvalidated) {
-            currentInsertionPoint = opIt;
-          }
-
-          itInvalidated = (it >= currentInsertionPoint);
-          // insert the new operation (invalidated all pointer onwards)
-          currentInsertionPoint = qc.insert(
-              currentInsertionPoint, std::make_unique<StandardOperation>(
-                                         controls, targs, type, parameters));
+      auto controls = standardOp->getControls();
+      const auto parameters = standardOp->getParameter();
+
+      // determine for which measurement results the operation is applied
+      const auto appliedOn = [&classicOp](const std::uint64_t value) {
+        const auto expectedValue = classicOp->getExpectedValue();
+        switch (classicOp->getComparisonKind()) {
+        case Eq:
+          return value == expectedValue;
+        case Neq:
+          return value != expectedValue;
+        case Lt:
+          return value < expectedValue;
+        case Leq:
+          return value <= expectedValue;
+        case Gt:
+          return value > expectedValue;
+        case Geq:
+          return value >= expectedValue;
+        }
+        unreachable();
+      };
+      const auto onZero = appliedOn(0U);
+      const auto onOne = appliedOn(1U);
+
+      // remove the classic-controlled operation
+      const auto pos = qc.erase(qc.begin() + static_cast<std::ptrdiff_t>(idx));
+      if (!onZero && !onOne) {
+        --idx;
+        continue;
+      }
 
-          if (itInvalidated) {
-            it = currentInsertionPoint;
-          }
-          // advance just after the currently inserted operation
-          ++currentInsertionPoint;
-          // the inner loop also has to restart from here due to the
-          // invalidation of the iterators
-          opIt = currentInsertionPoint;
+      // determine the appropriate control to add
+      if (onZero != onOne) {
+        const auto controlType =
+            onOne ? Control::Type::Pos : Control::Type::Neg;
+        const auto opposite = onOne ? Control::Type::Neg : Control::Type::Pos;
+        if (controls.count({measurementQubit, opposite}) != 0) {
+          // the operation is never applied
+          --idx;
+          continue;
         }
+        controls.emplace(measurementQubit, controlType);
+      }
+
+      // insert the new operation
+      if (changeIdx.has_value()) {
+        qc.insert(qc.begin() + static_cast<std::ptrdiff_t>(*changeIdx),
+                  std::make_unique<StandardOperation>(controls, targs, type,
+                                                      parameters));
+        ++(*changeIdx);
+      } else {
+        qc.insert(pos, std::make_unique<StandardOperation>(controls, targs,
+                                                           type, parameters));
       }
     }
-    ++it;
+
+    // remember q->c for adding measurements later
+    if (!overwritten) {
+      measurementsToAdd.emplace_back(measurementQubit, measurementBit);
+    }
+    it = qc.begin() + static_cast<std::ptrdiff_t>(start);
   }
-  if (qubitsToAddMeasurements.empty()) {
+  if (measurementsToAdd.empty()) {
     return;
   }
   qc.outputPermutation.clear();
-  for (const auto& [qubit, clbit] : qubitsToAddMeasurements) {
+  for (const auto& [qubit, clbit] : measurementsToAdd) {
     qc.measure(qubit, clbit);
   }
   qc.initializeIOMapping();
-- 
2.43.0


From 1eedf5daed0028a4e1015711e2a8bd52ea361bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:34 +0000
Subject: [PATCH 093/142] fix: PiRational subtraction and division of integers
 and reduction modulo 2*PI were wrong

---
 include/mqt-core/zx/Rational.hpp | 10 ++++------
 src/zx/Rational.cpp              | 20 +++++++++++++-------
 2 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/include/mqt-core/zx/Rational.hpp b/include/mqt-core/zx/Rational.hpp
index 2a4b198..fdfc807 100644
--- a/include/mqt-core/zx/Rational.hpp
+++ b/include/mqt-core/zx/Rational.hpp
@@ -207,9 +207,8 @@ inline PiRational operator-(PiRational lhs, const int64_t rhs) {
   lhs -= rhs;
   return lhs;
 }
-inline PiRational operator-(const int64_t lhs, PiRational rhs) {
-  rhs -= lhs;
-  return rhs;
+inline PiRational operator-(const int64_t lhs, const PiRational& rhs) {
+  return PiRational(lhs) - rhs;
 }
 
 inline PiRational operator*(PiRational lhs, const PiRational& rhs) {
@@ -233,9 +232,8 @@ inline PiRational operator/(PiRational lhs, const int64_t rhs) {
   lhs /= rhs;
   return lhs;
 }
-inline PiRational operator/(const int64_t lhs, PiRational rhs) {
-  rhs /= lhs;
-  return rhs;
+inline PiRational operator/(const int64_t lhs, const PiRational& rhs) {
+  return PiRational(lhs * rhs.getDenom(), rhs.getNum());
 }
 
 inline bool operator<(const PiRational& lhs, const PiRational& rhs) {
diff --git a/src/zx/Rational.cpp b/src/zx/Rational.cpp
index 3abc4fe..63744bf 100644
--- a/src/zx/Rational.cpp
+++ b/src/zx/Rational.cpp
@@ -25,15 +25,15 @@ PiRational::PiRational(double val) {
 
   const double multPi = PI / val;
   const double nearest = std::round(multPi);
-  if (std::abs(nearest - multPi) < PARAMETER_TOLERANCE) {
-    auto denom = static_cast<int>(nearest);
+  if (nearest != 0 && std::abs(nearest - multPi) < PARAMETER_TOLERANCE) {
+    auto denom = static_cast<int64_t>(nearest);
     frac = Rational(1, denom);
     modPi();
     return;
   }
 
   val /= PI;
-  val -= 2 * static_cast<int>(val / 2);
+  val -= 2 * std::trunc(val / 2);
   if (val > 1) {
     val -= 2;
   } else if (val <= -1) {
@@ -92,10 +92,16 @@ PiRational& PiRational::operator/=(const int64_t rhs) {
 }
 
 void PiRational::modPi() {
-  if (*this > 1) {
-    frac = Rational(getNum() - (2 * getDenom()), getDenom());
-  } else if (*this <= -1) {
-    frac = Rational(getNum() + (2 * getDenom()), getDenom());
+  if (*this > 1 || *this <= -1) {
+    const BigInt denom = getDenom();
+    const BigInt period = 2 * denom;
+    BigInt num = getNum() % period;
+    if (num > denom) {
+      num -= period;
+    } else if (num <= -denom) {
+      num += period;
+    }
+    frac = Rational(num, denom);
   }
   if (getNum() == 0) {
     setDenom(1);
-- 
2.43.0


From c186d96818c27493a0b0f78325b8383b1944f9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:34 +0000
Subject: [PATCH 094/142] fix: iterating over the edges of an empty ZX diagram
 dereferenced null

---
 src/zx/Utils.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/zx/Utils.cpp b/src/zx/Utils.cpp
index f175598..4059b6b 100644
--- a/src/zx/Utils.cpp
+++ b/src/zx/Utils.cpp
@@ -63,8 +63,11 @@ void Vertices::VertexIterator::nextValidVertex() {
 Edges::EdgeIterator::EdgeIterator(
     const std::vector<std::vector<Edge>>& es,
     const std::vector<std::optional<VertexData>>& verts)
-    : v(0), currentPos(es[0].begin()), edgesPos(es.begin()), edges(es),
-      vertices(verts) {
+    : v(0), edgesPos(es.begin()), edges(es), vertices(verts) {
+  if (edges.empty()) {
+    return;
+  }
+  currentPos = edges.front().begin();
   if (!vertices.empty()) {
     while (v < edges.size() && !vertices[v].has_value()) {
       ++v;
@@ -87,7 +90,10 @@ Edges::EdgeIterator::EdgeIterator(
 Edges::EdgeIterator::EdgeIterator(
     const std::vector<std::vector<Edge>>& es,
     const std::vector<std::optional<VertexData>>& verts, const Vertex vertex)
-    : v(vertex), edges(es), vertices(verts) {
+    : v(vertex), edgesPos(es.begin()), edges(es), vertices(verts) {
+  if (edges.empty()) {
+    return;
+  }
   if (v >= edges.size()) {
     currentPos = edges.back().end();
     edgesPos = edges.end();
-- 
2.43.0


From 0c8d6fb707e4be82ed4200d31d7f3c2e8a8c5198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:34 +0000
Subject: [PATCH 095/142] fix: ZXDiagram::getAdjMat accessed out of bounds
 after deletions

---
 src/zx/ZXDiagram.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zx/ZXDiagram.cpp b/src/zx/ZXDiagram.cpp
index 90073b3..77b0c76 100644
--- a/src/zx/ZXDiagram.cpp
+++ b/src/zx/ZXDiagram.cpp
@@ -389,7 +389,7 @@ void ZXDiagram::addGlobalPhase(const PiExpression& phase) {
 }
 
 gf2Mat ZXDiagram::getAdjMat() const {
-  gf2Mat adjMat{nvertices, gf2Vec(nvertices, false)};
+  gf2Mat adjMat{vertices.size(), gf2Vec(vertices.size(), false)};
   for (const auto& [from, to] : getEdges()) {
     adjMat[from][to] = true;
     adjMat[to][from] = true;
-- 
2.43.0


From 00e1366ffc0d9ebebd73b22302476802d07a07cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:34 +0000
Subject: [PATCH 096/142] fix: ZXDiagram::isIdentity accepted Hadamard wires

---
 src/zx/ZXDiagram.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zx/ZXDiagram.cpp b/src/zx/ZXDiagram.cpp
index 77b0c76..2fd0282 100644
--- a/src/zx/ZXDiagram.cpp
+++ b/src/zx/ZXDiagram.cpp
@@ -294,7 +294,8 @@ bool ZXDiagram::isIdentity() const {
 
   const auto nInputs = inputs.size();
   for (size_t i = 0; i < nInputs; ++i) {
-    if (!connected(inputs[i], outputs[i])) {
+    const auto edge = getEdge(inputs[i], outputs[i]);
+    if (!edge.has_value() || edge->type != EdgeType::Simple) {
       return false;
     }
   }
-- 
2.43.0


From 4800d1bf3ab3c7a5df25549495ea385ccabc142a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:34 +0000
Subject: [PATCH 097/142] fix: composing and inverting ZX diagrams gave wrong
 phases and wires

---
 src/zx/ZXDiagram.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/zx/ZXDiagram.cpp b/src/zx/ZXDiagram.cpp
index 2fd0282..5fadd0b 100644
--- a/src/zx/ZXDiagram.cpp
+++ b/src/zx/ZXDiagram.cpp
@@ -232,6 +232,7 @@ ZXDiagram& ZXDiagram::invert() {
       data.value().phase = -data.value().phase;
     }
   }
+  globalPhase = -globalPhase;
   return *this;
 }
 
@@ -240,7 +241,14 @@ ZXDiagram& ZXDiagram::concat(const ZXDiagram& rhs) {
     throw ZXException(
         "Cannot concatenate Diagrams with differing number of qubits!");
   }
+  if (&rhs == this) {
+    return concat(ZXDiagram(rhs));
+  }
 
+  std::unordered_map<Vertex, std::size_t> inputIndex;
+  for (std::size_t i = 0; i < rhs.inputs.size(); ++i) {
+    inputIndex[rhs.inputs[i]] = i;
+  }
   std::unordered_map<Vertex, Vertex> newVs;
   const auto nverts = rhs.vertices.size();
   for (std::size_t i = 0; i < nverts; ++i) {
@@ -264,7 +272,7 @@ ZXDiagram& ZXDiagram::concat(const ZXDiagram& rhs) {
           addEdge(newVs[i], newVs[to], type);
         }
       } else {
-        const auto outV = outputs[static_cast<std::size_t>(rhs.qubit(to))];
+        const auto outV = outputs[inputIndex.at(to)];
         for (const auto& [interior_v, interior_type] :
              edges[outV]) { // redirect edges going to outputs
           if (interior_type == type) {
@@ -283,7 +291,7 @@ ZXDiagram& ZXDiagram::concat(const ZXDiagram& rhs) {
     outputs[i] = newVs[rhs.outputs[i]];
   }
 
-  this->addGlobalPhase(-rhs.globalPhase);
+  this->addGlobalPhase(rhs.globalPhase);
   return *this;
 }
 
-- 
2.43.0


From 43728ffa5fcc6f0c3f48f7985b23813ac716d6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:34 +0000
Subject: [PATCH 098/142] fix: ZXDiagram::addQubit labelled the new qubit one
 too high

---
 src/zx/ZXDiagram.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/zx/ZXDiagram.cpp b/src/zx/ZXDiagram.cpp
index 5fadd0b..c9779c3 100644
--- a/src/zx/ZXDiagram.cpp
+++ b/src/zx/ZXDiagram.cpp
@@ -122,10 +122,10 @@ Vertex ZXDiagram::addVertex(const Qubit qubit, const Col col,
 }
 
 void ZXDiagram::addQubit() {
-  auto in = addVertex(static_cast<zx::Qubit>(getNQubits()) + 1, 0,
-                      PiExpression(), VertexType::Boundary);
-  auto out = addVertex(static_cast<zx::Qubit>(getNQubits()) + 1, 0,
-                       PiExpression(), VertexType::Boundary);
+  auto in = addVertex(static_cast<zx::Qubit>(getNQubits()), 0, PiExpression(),
+                      VertexType::Boundary);
+  auto out = addVertex(static_cast<zx::Qubit>(getNQubits()), 0, PiExpression(),
+                       VertexType::Boundary);
   inputs.emplace_back(in);
   outputs.emplace_back(out);
 }
-- 
2.43.0


From f2cbf3d6ee2160b98bc868da9ed4a1b95cc98c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:34 +0000
Subject: [PATCH 099/142] fix: gadgetSimp fused spiders that are not phase
 gadgets

---
 src/zx/Rules.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/zx/Rules.cpp b/src/zx/Rules.cpp
index 686fb99..f5be0dd 100644
--- a/src/zx/Rules.cpp
+++ b/src/zx/Rules.cpp
@@ -302,7 +302,7 @@ bool checkAndFuseGadget(ZXDiagram& diag, const Vertex v) {
     const auto& [v0, v0Etype] = diag.incidentEdges(id0)[0].to == v
                                     ? diag.incidentEdges(id0)[1]
                                     : diag.incidentEdges(id0)[0];
-    if (v0Etype != EdgeType::Hadamard) {
+    if (v0Etype != EdgeType::Hadamard || diag.isBoundaryVertex(v0)) {
       return false;
     }
 
@@ -345,6 +345,7 @@ bool checkAndFuseGadget(ZXDiagram& diag, const Vertex v) {
 
     foundGadget = true;
     id1 = n;
+    phaseSpider.reset();
 
     for (const auto& [nn, nnEtype] :
          diag.incidentEdges(id1.value())) { // Todo: maybe problem with parallel
@@ -356,7 +357,11 @@ bool checkAndFuseGadget(ZXDiagram& diag, const Vertex v) {
       }
 
       if (diag.degree(nn) == 1 && !diag.isBoundaryVertex(nn)) {
-        foundGadget = true;
+        if (phaseSpider.has_value()) {
+          // more than one phase is connected, which is not a phase gadget
+          foundGadget = false;
+          break;
+        }
         phaseSpider = nn;
         continue;
       }
-- 
2.43.0


From a243312902d718e60a5ac0886ce4c2d6274e90cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:34 +0000
Subject: [PATCH 100/142] fix: the ZX diagram of ECR missed an X gate

---
 src/zx/FunctionalityConstruction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zx/FunctionalityConstruction.cpp b/src/zx/FunctionalityConstruction.cpp
index 7fa390a..883a60e 100644
--- a/src/zx/FunctionalityConstruction.cpp
+++ b/src/zx/FunctionalityConstruction.cpp
@@ -459,7 +459,7 @@ FunctionalityConstruction::parseOp(ZXDiagram& diag, op_it it, op_it end,
     case qc::OpType::ECR: {
       const auto target2 = static_cast<Qubit>(p.at(op->getTargets()[1]));
       addRzx(diag, PiExpression(PiRational(1, 4)), target, target2, qubits);
-      addXSpider(diag, target, qubits);
+      addXSpider(diag, target, qubits, PiExpression(PiRational(1, 1)));
       addRzx(diag, PiExpression(-PiRational(1, 4)), target, target2, qubits);
       break;
     }
-- 
2.43.0


From 1baae6f6e08e4c0cf8e6adf90c2e919163d75bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:46 +0000
Subject: [PATCH 101/142] fix: negative controls were ignored and global phases
 crashed when constructing ZX diagrams

---
 src/zx/FunctionalityConstruction.cpp | 33 ++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/zx/FunctionalityConstruction.cpp b/src/zx/FunctionalityConstruction.cpp
index 883a60e..2daa6dd 100644
--- a/src/zx/FunctionalityConstruction.cpp
+++ b/src/zx/FunctionalityConstruction.cpp
@@ -36,7 +36,9 @@ bool FunctionalityConstruction::checkSwap(const op_it& it, const op_it& end,
     const auto& op1 = *(it + 1);
     const auto& op2 = *(it + 2);
     if (op1->getType() == qc::OpType::X && op2->getType() == qc::OpType::X &&
-        op1->getNcontrols() == 1 && op2->getNcontrols() == 1) {
+        op1->getNcontrols() == 1 && op2->getNcontrols() == 1 &&
+        op1->getControls().begin()->type == qc::Control::Type::Pos &&
+        op2->getControls().begin()->type == qc::Control::Type::Pos) {
       const auto tar1 = p.at(op1->getTargets().front());
       const auto tar2 = p.at(op2->getTargets().front());
       const auto ctrl1 = p.at((*op1->getControls().begin()).qubit);
@@ -316,15 +318,30 @@ FunctionalityConstruction::parseOp(ZXDiagram& diag, op_it it, op_it end,
     return it + 1;
   }
 
+  if (op->getType() == qc::OpType::GPhase) {
+    if (op->isControlled()) {
+      throw ZXException("Unsupported Controlled Operation: " +
+                        qc::toString(op->getType()));
+    }
+    diag.addGlobalPhase(parseParam(op.get(), 0));
+    return it + 1;
+  }
+
+  // negative controls are enclosed in X gates
+  const auto flipNegativeControls = [&]() {
+    for (const auto& control : op->getControls()) {
+      if (control.type == qc::Control::Type::Neg) {
+        addXSpider(diag, static_cast<Qubit>(p.at(control.qubit)), qubits,
+                   PiExpression(PiRational(1, 1)));
+      }
+    }
+  };
+  flipNegativeControls();
+
   if (!op->isControlled()) {
     // single qubit gates
     const auto target = static_cast<Qubit>(p.at(op->getTargets().front()));
     switch (op->getType()) {
-    case qc::OpType::GPhase: {
-      const auto& param = parseParam(op.get(), 0);
-      diag.addGlobalPhase(param);
-      break;
-    }
     case qc::OpType::Z:
       addZSpider(diag, target, qubits, PiExpression(PiRational(1, 1)));
       break;
@@ -511,7 +528,8 @@ FunctionalityConstruction::parseOp(ZXDiagram& diag, op_it it, op_it end,
     switch (op->getType()) { // TODO: any gate can be controlled
     case qc::OpType::X:
       // check if swap
-      if (checkSwap(it, end, ctrl, target, p)) {
+      if (op->getControls().begin()->type == qc::Control::Type::Pos &&
+          checkSwap(it, end, ctrl, target, p)) {
         addSwap(diag, target, ctrl, qubits);
         return it + 3;
       } else {
@@ -585,6 +603,7 @@ FunctionalityConstruction::parseOp(ZXDiagram& diag, op_it it, op_it end,
                       std::to_string(op->getNcontrols()) + " ctrls)" +
                       qc::toString(op->getType()));
   }
+  flipNegativeControls();
   return it + 1;
 }
 
-- 
2.43.0


From 1791af82816248d62de861a96c74752895b1594e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:46 +0000
Subject: [PATCH 102/142] fix: the ZX diagrams of XXplusYY and large-angle
 XXminusYY gates were wrong

---
 .../mqt-core/zx/FunctionalityConstruction.hpp |  6 +-
 src/zx/FunctionalityConstruction.cpp          | 62 ++++++++++++-------
 2 files changed, 44 insertions(+), 24 deletions(-)

diff --git a/include/mqt-core/zx/FunctionalityConstruction.hpp b/include/mqt-core/zx/FunctionalityConstruction.hpp
index ac7817f..dc62a3b 100644
--- a/include/mqt-core/zx/FunctionalityConstruction.hpp
+++ b/include/mqt-core/zx/FunctionalityConstruction.hpp
@@ -102,12 +102,12 @@ protected:
   static void addDcx(ZXDiagram& diag, Qubit qubit1, Qubit qubit2,
                      std::vector<Vertex>& qubits);
   static void
-  addXXplusYY(ZXDiagram& diag, const PiExpression& theta,
+  addXXplusYY(ZXDiagram& diag, const PiExpression& halfTheta,
               const PiExpression& beta, Qubit qubit0, Qubit qubit1,
               std::vector<Vertex>& qubits,
               const std::optional<double>& unconvertedBeta = std::nullopt);
   static void
-  addXXminusYY(ZXDiagram& diag, const PiExpression& theta,
+  addXXminusYY(ZXDiagram& diag, const PiExpression& halfTheta,
                const PiExpression& beta, Qubit qubit0, Qubit qubit1,
                std::vector<Vertex>& qubits,
                const std::optional<double>& unconvertedBeta = std::nullopt);
@@ -121,5 +121,7 @@ protected:
 
   static PiExpression toPiExpr(const qc::SymbolOrNumber& param);
   static PiExpression parseParam(const qc::Operation* op, std::size_t i);
+  // halves the parameter before it is reduced modulo 2 * PI
+  static PiExpression parseHalvedParam(const qc::Operation* op, std::size_t i);
 };
 } // namespace zx
diff --git a/src/zx/FunctionalityConstruction.cpp b/src/zx/FunctionalityConstruction.cpp
index 2daa6dd..0bf4364 100644
--- a/src/zx/FunctionalityConstruction.cpp
+++ b/src/zx/FunctionalityConstruction.cpp
@@ -216,32 +216,37 @@ void FunctionalityConstruction::addDcx(ZXDiagram& diag, const Qubit qubit1,
 }
 
 void FunctionalityConstruction::addXXplusYY(
-    ZXDiagram& diag, const PiExpression& theta, const PiExpression& beta,
+    ZXDiagram& diag, const PiExpression& halfTheta, const PiExpression& beta,
     const Qubit qubit0, const Qubit qubit1, std::vector<Vertex>& qubits,
     const std::optional<double>& unconvertedBeta) {
-  addRz(diag, beta, qubit1, qubits, unconvertedBeta);
+  const auto phase = PiRational(1, 1) - beta;
+  std::optional<double> unconvertedPhase = std::nullopt;
+  if (unconvertedBeta.has_value()) {
+    unconvertedPhase = PI - unconvertedBeta.value();
+  }
+  addRz(diag, phase, qubit1, qubits, unconvertedPhase);
   addRz(diag, PiExpression(PiRational(1, 2)), qubit1, qubits);
   addRz(diag, PiExpression(PiRational(-1, 2)), qubit0, qubits);
   addRx(diag, PiExpression(PiRational(1, 2)), qubit0, qubits);
   addRz(diag, PiExpression(PiRational(1, 2)), qubit0, qubits);
   addCnot(diag, qubit0, qubit1, qubits);
-  addRy(diag, theta / 2, qubit0, qubits);
-  addRy(diag, theta / 2, qubit1, qubits);
+  addRy(diag, halfTheta, qubit0, qubits);
+  addRy(diag, halfTheta, qubit1, qubits);
   addCnot(diag, qubit0, qubit1, qubits);
   addRz(diag, PiExpression(PiRational(-1, 2)), qubit0, qubits);
   addRx(diag, PiExpression(PiRational(-1, 2)), qubit0, qubits);
   addRz(diag, PiExpression(PiRational(1, 2)), qubit0, qubits);
-  if (unconvertedBeta.has_value()) {
-    addRz(diag, -beta, qubit1, qubits, -unconvertedBeta.value());
+  if (unconvertedPhase.has_value()) {
+    addRz(diag, -phase, qubit1, qubits, -unconvertedPhase.value());
   } else {
-    addRz(diag, -beta, qubit1, qubits);
+    addRz(diag, -phase, qubit1, qubits);
   }
 
   addRz(diag, PiExpression(-PiRational(1, 2)), qubit1, qubits);
 }
 
 void FunctionalityConstruction::addXXminusYY(
-    ZXDiagram& diag, const PiExpression& theta, const PiExpression& beta,
+    ZXDiagram& diag, const PiExpression& halfTheta, const PiExpression& beta,
     const Qubit qubit0, const Qubit qubit1, std::vector<Vertex>& qubits,
     const std::optional<double>& unconvertedBeta) {
   if (unconvertedBeta.has_value()) {
@@ -254,8 +259,8 @@ void FunctionalityConstruction::addXXminusYY(
   addRx(diag, PiExpression(PiRational(1, 2)), qubit0, qubits);
   addRz(diag, PiExpression(PiRational(1, 2)), qubit0, qubits);
   addCnot(diag, qubit0, qubit1, qubits);
-  addRy(diag, -theta / 2, qubit0, qubits);
-  addRy(diag, theta / 2, qubit1, qubits);
+  addRy(diag, -halfTheta, qubit0, qubits);
+  addRy(diag, halfTheta, qubit1, qubits);
   addCnot(diag, qubit0, qubit1, qubits);
   addRz(diag, PiExpression(PiRational(-1, 2)), qubit0, qubits);
   addRx(diag, PiExpression(PiRational(-1, 2)), qubit0, qubits);
@@ -482,25 +487,25 @@ FunctionalityConstruction::parseOp(ZXDiagram& diag, op_it it, op_it end,
     }
     case qc::OpType::XXplusYY: {
       const auto target2 = static_cast<Qubit>(p.at(op->getTargets()[1]));
-      const auto& betaExpr = parseParam(op.get(), 0);
-      if (betaExpr.isConstant()) {
-        addXXplusYY(diag, betaExpr, parseParam(op.get(), 1), target, target2,
-                    qubits, op->getParameter().at(0));
+      const auto& halfTheta = parseHalvedParam(op.get(), 0);
+      const auto& beta = parseParam(op.get(), 1);
+      if (beta.isConstant()) {
+        addXXplusYY(diag, halfTheta, beta, target, target2, qubits,
+                    op->getParameter().at(1));
       } else {
-        addXXplusYY(diag, betaExpr, parseParam(op.get(), 1), target, target2,
-                    qubits);
+        addXXplusYY(diag, halfTheta, beta, target, target2, qubits);
       }
       break;
     }
     case qc::OpType::XXminusYY: {
       const auto target2 = static_cast<Qubit>(p.at(op->getTargets()[1]));
-      const auto& betaExpr = parseParam(op.get(), 0);
-      if (betaExpr.isConstant()) {
-        addXXminusYY(diag, betaExpr, parseParam(op.get(), 1), target, target2,
-                     qubits, op->getParameter().at(0));
+      const auto& halfTheta = parseHalvedParam(op.get(), 0);
+      const auto& beta = parseParam(op.get(), 1);
+      if (beta.isConstant()) {
+        addXXminusYY(diag, halfTheta, beta, target, target2, qubits,
+                     op->getParameter().at(1));
       } else {
-        addXXminusYY(diag, betaExpr, parseParam(op.get(), 1), target, target2,
-                     qubits);
+        addXXminusYY(diag, halfTheta, beta, target, target2, qubits);
       }
       break;
     }
@@ -733,6 +738,19 @@ PiExpression FunctionalityConstruction::parseParam(const qc::Operation* op,
   }
   return PiExpression{PiRational{op->getParameter().at(i)}};
 }
+PiExpression
+FunctionalityConstruction::parseHalvedParam(const qc::Operation* op,
+                                            const std::size_t i) {
+  if (const auto* symbOp = dynamic_cast<const qc::SymbolicOperation*>(op)) {
+    const auto& param = symbOp->getParameter(i);
+    if (std::holds_alternative<qc::Symbolic>(param)) {
+      return toPiExpr(std::get<qc::Symbolic>(param) / 2.0);
+    }
+    return toPiExpr(std::get<double>(param) / 2.0);
+  }
+  return PiExpression{PiRational{op->getParameter().at(i) / 2.0}};
+}
+
 PiExpression
 FunctionalityConstruction::toPiExpr(const qc::SymbolOrNumber& param) {
   if (std::holds_alternative<double>(param)) {
-- 
2.43.0


From 7cf862652bf002f8b976bb4f21c386937529ae18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:49 +0000
Subject: [PATCH 103/142] fix: random two-qubit Cliffords only covered two
 thirds of the group

---
 src/algorithms/RandomCliffordCircuit.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/RandomCliffordCircuit.cpp b/src/algorithms/RandomCliffordCircuit.cpp
index 2952b18..5687e6b 100644
--- a/src/algorithms/RandomCliffordCircuit.cpp
+++ b/src/algorithms/RandomCliffordCircuit.cpp
@@ -158,6 +158,14 @@ auto append2QClifford(QuantumComputation& circ, const std::uint16_t idx,
       qc.sdg(control);
       qc.h(control);
     }
+
+    if (id / 27 % 3 == 1) {
+      qc.h(target);
+      qc.s(target);
+    } else if (id / 27 % 3 == 2) {
+      qc.sdg(target);
+      qc.h(target);
+    }
   } else {
     // Cliffords with a SWAP
     id -= 684;
@@ -176,6 +184,13 @@ auto append2QClifford(QuantumComputation& circ, const std::uint16_t idx,
       qc.sdg(control);
       qc.h(control);
     }
+    if (id / 3 % 3 == 1) {
+      qc.h(target);
+      qc.s(target);
+    } else if (id / 3 % 3 == 2) {
+      qc.sdg(target);
+      qc.h(target);
+    }
 
     qc.cx(control, target);
     qc.cx(target, control);
@@ -210,7 +225,7 @@ auto createRandomCliffordCircuit(const Qubit nq, const std::size_t depth,
   qc.setName("random_clifford_" + std::to_string(nq) + "_" +
              std::to_string(depth) + "_" + std::to_string(seed));
 
-  std::uniform_int_distribution<std::uint16_t> distribution(0, 11520);
+  std::uniform_int_distribution<std::uint16_t> distribution(0, 11519);
   auto cliffordGenerator = [&]() { return distribution(qc.getGenerator()); };
 
   for (std::size_t l = 0; l < depth; ++l) {
-- 
2.43.0


From e9bec363bc81176e72210b776deaad3ba247e30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:49 +0000
Subject: [PATCH 104/142] fix: neutral-atom load and store operations could
 list an atom twice

---
 src/na/NAComputation.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/na/NAComputation.cpp b/src/na/NAComputation.cpp
index 4c6ba04..1cf8908 100644
--- a/src/na/NAComputation.cpp
+++ b/src/na/NAComputation.cpp
@@ -95,6 +95,11 @@ auto NAComputation::validate() const -> std::pair<bool, std::string> {
       //===----------------------------------------------------------------===//
       const auto& shuttlingOp = op->as<ShuttlingOp>();
       const auto& opAtoms = shuttlingOp.getAtoms();
+      if (std::unordered_set<const Atom*>(opAtoms.begin(), opAtoms.end())
+              .size() != opAtoms.size()) {
+        ss << "Error in op number " << counter << " (two atoms identical)\n";
+        return {false, ss.str()};
+      }
       if (shuttlingOp.is<LoadOp>()) {
         //===-----------------------------------------------------------------//
         // Load Operations
@@ -132,11 +137,6 @@ auto NAComputation::validate() const -> std::pair<bool, std::string> {
           const auto* a = opAtoms[i];
           for (std::size_t j = i + 1; j < opAtoms.size(); ++j) {
             const auto* b = opAtoms[j];
-            if (a == b) {
-              ss << "Error in op number " << counter
-                 << " (two atoms identical)\n";
-              return {false, ss.str()};
-            }
             const auto& s1 = currentLocations[a];
             const auto& s2 = currentLocations[b];
             const auto& e1 = targetLocations[i];
-- 
2.43.0


From dc72f34f12926f859f9949ac57b9f7d68204847d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:49 +0000
Subject: [PATCH 105/142] fix: atoms with coinciding initial locations were
 dropped when printing NA computations

---
 src/na/NAComputation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/na/NAComputation.cpp b/src/na/NAComputation.cpp
index 1cf8908..221d3bb 100644
--- a/src/na/NAComputation.cpp
+++ b/src/na/NAComputation.cpp
@@ -55,7 +55,7 @@ auto NAComputation::getLocationOfAtomAfterOperation(const Atom& atom,
 }
 auto NAComputation::toString() const -> std::string {
   std::stringstream ss;
-  std::map<Location, const Atom*> initialLocationsAsc;
+  std::multimap<Location, const Atom*> initialLocationsAsc;
   for (const auto& [atom, loc] : initialLocations_) {
     initialLocationsAsc.emplace(loc, atom);
   }
-- 
2.43.0


From b0c3f9a010450f712a84b0388a1aff108ac82726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:49 +0000
Subject: [PATCH 106/142] fix: Location::operator>= compared the wrong way
 round

---
 include/mqt-core/na/entities/Location.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mqt-core/na/entities/Location.hpp b/include/mqt-core/na/entities/Location.hpp
index f2e36aa..5e655b1 100644
--- a/include/mqt-core/na/entities/Location.hpp
+++ b/include/mqt-core/na/entities/Location.hpp
@@ -105,14 +105,14 @@ struct Location final {
   /// @param other The location to compare with.
   /// @return True if this location is greater than or equal to the other
   [[nodiscard]] auto operator>=(const Location& other) const -> bool {
-    return !(other < *this);
+    return !(*this < other);
   }
 
   /// Compares two locations for less than or equal.
   /// @param other The location to compare with.
   /// @return True if this location is less than or equal to the other location,
   [[nodiscard]] auto operator<=(const Location& other) const -> bool {
-    return *this >= other;
+    return !(other < *this);
   }
 
   /// Computes the Euclidean distance between this location and the given
-- 
2.43.0


From 2072f2d059d9a2b8970f55b7f119ff41750960a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:49 +0000
Subject: [PATCH 107/142] fix: the transitive closure of directed acyclic
 graphs was incomplete

---
 .../mqt-core/datastructures/DirectedAcyclicGraph.hpp   | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/mqt-core/datastructures/DirectedAcyclicGraph.hpp b/include/mqt-core/datastructures/DirectedAcyclicGraph.hpp
index aeaae63..1a203e2 100644
--- a/include/mqt-core/datastructures/DirectedAcyclicGraph.hpp
+++ b/include/mqt-core/datastructures/DirectedAcyclicGraph.hpp
@@ -52,12 +52,14 @@ public:
       throw std::logic_error(oss.str());
     }
     DirectedGraph<V>::addEdge(u, v);
+    // every predecessor of u reaches every successor of v
     for (std::size_t k = 0; k < this->nVertices; ++k) {
       if (closureMatrix[k][i]) {
-        closureMatrix[k][j] = true;
-      }
-      if (closureMatrix[j][k]) {
-        closureMatrix[i][k] = true;
+        for (std::size_t l = 0; l < this->nVertices; ++l) {
+          if (closureMatrix[j][l]) {
+            closureMatrix[k][l] = true;
+          }
+        }
       }
     }
   }
-- 
2.43.0


From b94a3116a42505e31f638d4f7ed03d56e10bd255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:49 +0000
Subject: [PATCH 108/142] fix: self-loops of undirected graphs were ignored by
 isAdjacent and toString

---
 include/mqt-core/datastructures/UndirectedGraph.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/mqt-core/datastructures/UndirectedGraph.hpp b/include/mqt-core/datastructures/UndirectedGraph.hpp
index 5ff24b6..dee9f7f 100644
--- a/include/mqt-core/datastructures/UndirectedGraph.hpp
+++ b/include/mqt-core/datastructures/UndirectedGraph.hpp
@@ -194,8 +194,8 @@ public:
     }
     const auto i = mapping.at(u);
     const auto j = mapping.at(v);
-    return (i < j && adjacencyMatrix[i][j - i] != std::nullopt) or
-           (j < i && adjacencyMatrix[j][i - j] != std::nullopt);
+    return (i < j ? adjacencyMatrix[i][j - i] : adjacencyMatrix[j][i - j]) !=
+           std::nullopt;
   }
   [[nodiscard]] static auto isAdjacentEdge(const std::pair<V, V>& e,
                                            const std::pair<V, V>& f) -> bool {
@@ -210,7 +210,7 @@ public:
       ss << "  " << i << " [label=\"" << v << "\"];\n";
     }
     for (std::size_t i = 0; i < nVertices; ++i) {
-      for (std::size_t j = i + 1; j < nVertices; ++j) {
+      for (std::size_t j = i; j < nVertices; ++j) {
         if (adjacencyMatrix[i][j - i] != std::nullopt) {
           ss << "  " << i << " -- " << j << ";\n";
         }
-- 
2.43.0


From 8c5d3b54a2a20fe37afcbe2c09d1dddfbddcdfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:49 +0000
Subject: [PATCH 109/142] fix: vertices of a layer leaked and referred to a
 stale set after moving the layer

---
 include/mqt-core/datastructures/Layer.hpp | 17 +++++++++++------
 src/datastructures/Layer.cpp              |  7 ++++---
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/include/mqt-core/datastructures/Layer.hpp b/include/mqt-core/datastructures/Layer.hpp
index 0db8864..d8ba6fe 100644
--- a/include/mqt-core/datastructures/Layer.hpp
+++ b/include/mqt-core/datastructures/Layer.hpp
@@ -44,8 +44,9 @@ public:
     // vertex becomes executable
     std::int64_t executableThreshold = 0;
     std::int64_t executableCounter = 0;
-    std::vector<std::shared_ptr<DAGVertex>> enabledSuccessors;
-    std::vector<std::shared_ptr<DAGVertex>> disabledSuccessors;
+    // not owning, since vertices may be successors of each other
+    std::vector<std::weak_ptr<DAGVertex>> enabledSuccessors;
+    std::vector<std::weak_ptr<DAGVertex>> disabledSuccessors;
     bool executed = false;
     Operation* operation;
     ExecutableSet* executableSet;
@@ -110,10 +111,10 @@ public:
       if (isExecutable()) {
         executed = true;
         for (const auto& successor : disabledSuccessors) {
-          successor->decExecutableCounter();
+          successor.lock()->decExecutableCounter();
         }
         for (const auto& successor : enabledSuccessors) {
-          successor->incExecutableCounter();
+          successor.lock()->incExecutableCounter();
         }
         updateExecutableSet();
       } else {
@@ -134,7 +135,11 @@ public:
   };
 
 protected:
-  ExecutableSet executableSet;
+  // shared, since the vertices refer to it and have to keep referring to a
+  // valid set when the layer is moved or copied
+  std::shared_ptr<ExecutableSet> executableSet =
+      std::make_shared<ExecutableSet>();
+  std::vector<std::shared_ptr<DAGVertex>> vertices;
   auto constructDAG(const QuantumComputation& qc, bool commutable) -> void;
 
 public:
@@ -160,7 +165,7 @@ public:
     constructDAG(qc, commutable);
   }
   [[nodiscard]] auto getExecutableSet() const -> const ExecutableSet& {
-    return executableSet;
+    return *executableSet;
   }
   [[nodiscard]] auto constructInteractionGraph(OpType opType,
                                                std::size_t nControls) const
diff --git a/src/datastructures/Layer.cpp b/src/datastructures/Layer.cpp
index 8fceb6a..39055cd 100644
--- a/src/datastructures/Layer.cpp
+++ b/src/datastructures/Layer.cpp
@@ -50,7 +50,8 @@ auto Layer::constructDAG(const QuantumComputation& qc, const bool commutable)
   // iterate over all operations in the quantum circuit
   for (const auto& op : qc) {
     // create a vertex for the current operation
-    const auto vertex = DAGVertex::create(op.get(), executableSet);
+    const auto vertex = DAGVertex::create(op.get(), *executableSet);
+    vertices.emplace_back(vertex);
     // iterate over all qubits the operation acts on
     for (const auto& qubit : op->getUsedQubits()) {
       // check whether the lookahead is empty
@@ -214,7 +215,7 @@ auto Layer::constructInteractionGraph(const OpType opType,
     throw std::invalid_argument(ss.str());
   }
   InteractionGraph graph;
-  for (const auto& vertex : executableSet) {
+  for (const auto& vertex : *executableSet) {
     const auto& gate = vertex->getOperation();
     if (gate->getType() == opType && gate->getNcontrols() == nControls) {
       const auto& usedQubits = gate->getUsedQubits();
@@ -232,7 +233,7 @@ auto Layer::getExecutablesOfType(const OpType opType,
                                  const std::size_t nControls) const
     -> std::vector<std::shared_ptr<DAGVertex>> {
   std::vector<std::shared_ptr<DAGVertex>> executables;
-  for (const auto& vertex : executableSet) {
+  for (const auto& vertex : *executableSet) {
     if ((vertex->getOperation())->getType() == opType and
         (vertex->getOperation())->getNcontrols() == nControls) {
       executables.emplace_back(vertex);
-- 
2.43.0


From 04d8ae85027d2fcd2858945db3031716b2e910f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:49 +0000
Subject: [PATCH 110/142] fix: the schedules of a layer could change the
 computation or get stuck

---
 src/datastructures/Layer.cpp | 87 +++++++++++++++++++++++++++---------
 1 file changed, 65 insertions(+), 22 deletions(-)

diff --git a/src/datastructures/Layer.cpp b/src/datastructures/Layer.cpp
index 39055cd..3c9f496 100644
--- a/src/datastructures/Layer.cpp
+++ b/src/datastructures/Layer.cpp
@@ -13,6 +13,7 @@
 #include "ir/Definitions.hpp"
 #include "ir/QuantumComputation.hpp"
 #include "ir/operations/OpType.hpp"
+#include "ir/operations/Operation.hpp"
 
 #include <algorithm>
 #include <cstddef>
@@ -23,6 +24,16 @@
 
 namespace qc {
 
+namespace {
+// a pair of inverse gates can only be moved past other gates on one of its
+// qubits regardless of the other qubits if it acts on every qubit separately
+auto actsOnQubitsSeparately(const Operation& op) -> bool {
+  return op.getUsedQubits().size() == 1 ||
+         (op.isStandardOperation() && !op.isControlled() &&
+          isSingleQubitGate(op.getType()));
+}
+} // namespace
+
 auto Layer::constructDAG(const QuantumComputation& qc, const bool commutable)
     -> void {
   const auto nQubits = qc.getNqubits();
@@ -52,8 +63,25 @@ auto Layer::constructDAG(const QuantumComputation& qc, const bool commutable)
     // create a vertex for the current operation
     const auto vertex = DAGVertex::create(op.get(), *executableSet);
     vertices.emplace_back(vertex);
+    const auto& usedQubits = op->getUsedQubits();
+    // check whether the operation is the inverse of the lookahead on a qubit
+    // and whether the lookahead does not belong to the current group
+    const auto isInversePair = [&](const Qubit q) {
+      return lookahead[q] != nullptr && op->isUnitary() &&
+             lookahead[q]->getOperation()->isUnitary() &&
+             lookahead[q]->getOperation()->isInverseOf(*op) &&
+             (currentGroup[q].empty() ||
+              !(currentGroup[q][0]->getOperation())
+                   ->commutesAtQubit(*lookahead[q]->getOperation(), q));
+    };
+    // check whether that is the case for the same lookahead on all qubits
+    const auto isInversePairOnAllQubits =
+        std::all_of(usedQubits.cbegin(), usedQubits.cend(), [&](const auto q) {
+          return lookahead[q] == lookahead[*usedQubits.cbegin()] &&
+                 isInversePair(q);
+        });
     // iterate over all qubits the operation acts on
-    for (const auto& qubit : op->getUsedQubits()) {
+    for (const auto& qubit : usedQubits) {
       // check whether the lookahead is empty
       if (lookahead[qubit] == nullptr) {
         // here: the lookahead is empty
@@ -67,34 +95,49 @@ auto Layer::constructDAG(const QuantumComputation& qc, const bool commutable)
         // eliminated, however, since we also allow global gates, those might
         // cancel out each other on a particular qubit but not on all qubits
         // and, hence, cannot be eliminated.
-        auto current = lookahead[qubit];
-        lookahead[qubit] = vertex;
         // check whether the current operation is the inverse of the
         // lookahead
-        if (current->getOperation()->isInverseOf(
-                *lookahead[qubit]->getOperation()) &&
-            (currentGroup[qubit].empty() ||
-             !(currentGroup[qubit][0]->getOperation())
-                  ->commutesAtQubit(*current->getOperation(), qubit))) {
+        const auto inversePair =
+            isInversePairOnAllQubits ||
+            (actsOnQubitsSeparately(*op) && isInversePair(qubit));
+        auto current = lookahead[qubit];
+        lookahead[qubit] = vertex;
+        if (inversePair) {
           // here: the current operation is the inverse of the lookahead
-          // add an enabling edge from the lookahead to all operations on this
-          // qubit including the destructive ones
-          for (const auto& qubitOperation : qubitOperations[qubit]) {
-            lookahead[qubit]->addEnabledSuccessor(qubitOperation);
+          // keep the pair from being executed in between another pair
+          for (const auto& constructiveOp : constructive[qubit]) {
+            constructiveOp->addEnabledSuccessor(current);
           }
-          for (const auto& qubitOperation : destructive[qubit]) {
-            lookahead[qubit]->addEnabledSuccessor(qubitOperation);
+          if (isInversePairOnAllQubits) {
+            for (const auto& destructiveOp : destructive[qubit]) {
+              destructiveOp->addDisabledSuccessor(current);
+            }
+            // add an enabling edge from the lookahead to all operations on this
+            // qubit including the destructive ones
+            for (const auto& qubitOperation : qubitOperations[qubit]) {
+              lookahead[qubit]->addEnabledSuccessor(qubitOperation);
+            }
+            for (const auto& qubitOperation : destructive[qubit]) {
+              lookahead[qubit]->addEnabledSuccessor(qubitOperation);
+            }
+            // add a disabling edge to all operations on this qubit including
+            // the destructive ones
+            for (const auto& qubitOperation : qubitOperations[qubit]) {
+              current->addDisabledSuccessor(qubitOperation);
+            }
+            for (const auto& qubitOperation : destructive[qubit]) {
+              current->addDisabledSuccessor(qubitOperation);
+            }
+          } else {
+            // the operations in between the pair on other qubits may depend on
+            // the previous operations on this qubit, which, hence, must not be
+            // disabled
+            for (const auto& predecessor : currentGroup[qubit]) {
+              predecessor->addEnabledSuccessor(current);
+            }
           }
           // add the lookahead to the constructive group
           constructive[qubit].emplace_back(lookahead[qubit]);
-          // add a disabling edge to all operations on this qubit including
-          // the destructive ones
-          for (const auto& qubitOperation : qubitOperations[qubit]) {
-            current->addDisabledSuccessor(qubitOperation);
-          }
-          for (const auto& qubitOperation : destructive[qubit]) {
-            current->addDisabledSuccessor(qubitOperation);
-          }
           // add an enabling edge to the lookahead
           current->addEnabledSuccessor(lookahead[qubit]);
           // add the current vertex to the destructive group
-- 
2.43.0


From c0bc1aff731f4f9272c2981ec59d95ba42e5c33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:21 +0000
Subject: [PATCH 111/142] fix: qubit and parameter arity of gates were never
 verified

---
 mlir/include/mlir/Dialect/MQTOpt/IR/MQTOptTraits.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mlir/include/mlir/Dialect/MQTOpt/IR/MQTOptTraits.h b/mlir/include/mlir/Dialect/MQTOpt/IR/MQTOptTraits.h
index 128b2d7..235783c 100644
--- a/mlir/include/mlir/Dialect/MQTOpt/IR/MQTOptTraits.h
+++ b/mlir/include/mlir/Dialect/MQTOpt/IR/MQTOptTraits.h
@@ -20,6 +20,7 @@ template <size_t N> class TargetArity {
 public:
   template <typename ConcreteOp>
   class Impl : public mlir::OpTrait::TraitBase<ConcreteOp, Impl> {
+  public:
     [[nodiscard]] static mlir::LogicalResult verifyTrait(mlir::Operation* op) {
       auto unitaryOp = mlir::cast<ConcreteOp>(op);
       if (const auto size = unitaryOp.getInQubits().size(); size != N) {
@@ -35,6 +36,7 @@ template <size_t N> class ParameterArity {
 public:
   template <typename ConcreteOp>
   class Impl : public mlir::OpTrait::TraitBase<ConcreteOp, Impl> {
+  public:
     [[nodiscard]] static mlir::LogicalResult verifyTrait(mlir::Operation* op) {
       auto paramOp = mlir::cast<ConcreteOp>(op);
       const auto& params = paramOp.getParams();
@@ -65,7 +67,9 @@ public:
                                     "a parameter mask with "
                                  << trueEntries << " true entries";
         }
-        if (const auto size = staticParams->size(); size != trueEntries) {
+        if (const auto size =
+                staticParams.has_value() ? staticParams->size() : 0;
+            size != trueEntries) {
           return op->emitError()
                  << "operation has " << size
                  << " static parameter(s) but has a parameter mask with "
-- 
2.43.0


From 14f948e3bf5b86dc1b3b952071329b4fdf154cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:21 +0000
Subject: [PATCH 112/142] fix: cancelling inverses looked at users that do not
 exist and skipped h and i

---
 .../CancelConsecutiveInversesPattern.cpp      | 22 +++----------------
 1 file changed, 3 insertions(+), 19 deletions(-)

diff --git a/mlir/lib/Dialect/MQTOpt/Transforms/CancelConsecutiveInversesPattern.cpp b/mlir/lib/Dialect/MQTOpt/Transforms/CancelConsecutiveInversesPattern.cpp
index c29760f..586269a 100644
--- a/mlir/lib/Dialect/MQTOpt/Transforms/CancelConsecutiveInversesPattern.cpp
+++ b/mlir/lib/Dialect/MQTOpt/Transforms/CancelConsecutiveInversesPattern.cpp
@@ -45,7 +45,7 @@ struct CancelConsecutiveInversesPattern final
                                             mlir::Operation& b) {
     static const std::map<std::string, std::string> INVERSE_PAIRS = {
         {"x", "x"},           {"y", "y"},   {"z", "z"},
-        {"h", "h"},           {"i", "i"},   {"swap", "swap"},
+        {"H", "H"},           {"I", "I"},   {"swap", "swap"},
         {"ecr", "ecr"},       {"t", "tdg"}, {"s", "sdg"},
         {"sx", "sxdg"},       {"v", "vdg"}, {"iswap", "iswapdg"},
         {"peres", "peresdg"},
@@ -74,7 +74,7 @@ struct CancelConsecutiveInversesPattern final
 
   mlir::LogicalResult match(UnitaryInterface op) const override {
     const auto& users = op->getUsers();
-    if (!areUsersUnique(users)) {
+    if (users.empty() || !areUsersUnique(users)) {
       return mlir::failure();
     }
     auto* user = *users.begin();
@@ -98,24 +98,8 @@ struct CancelConsecutiveInversesPattern final
                mlir::PatternRewriter& rewriter) const override {
     auto user = mlir::dyn_cast<UnitaryInterface>(
         *op->getUsers().begin()); // We always have exactly one user.
-    const auto& childUsers = user->getUsers();
 
-    for (const auto& childUser : childUsers) {
-      for (size_t i = 0; i < childUser->getOperands().size(); i++) {
-        const auto& operand = childUser->getOperand(i);
-        const auto found = std::find(user.getOutQubits().begin(),
-                                     user.getOutQubits().end(), operand);
-        if (found == user.getOutQubits().end()) {
-          continue;
-        }
-        const auto idx = std::distance(user.getOutQubits().begin(), found);
-        rewriter.modifyOpInPlace(childUser, [&] {
-          childUser->setOperand(i, op.getAllInQubits()[idx]);
-        });
-      }
-    }
-
-    rewriter.eraseOp(user);
+    rewriter.replaceOp(user, op.getAllInQubits());
     rewriter.eraseOp(op);
   }
 };
-- 
2.43.0


From 1d7d64c2ac9476f8bf1dfd064425390440255200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:21 +0000
Subject: [PATCH 113/142] fix: the round-trip pass accumulated the circuits of
 several runs

---
 mlir/lib/Dialect/MQTOpt/Transforms/MQTCoreRoundTrip.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mlir/lib/Dialect/MQTOpt/Transforms/MQTCoreRoundTrip.cpp b/mlir/lib/Dialect/MQTOpt/Transforms/MQTCoreRoundTrip.cpp
index b7e14ae..7376398 100644
--- a/mlir/lib/Dialect/MQTOpt/Transforms/MQTCoreRoundTrip.cpp
+++ b/mlir/lib/Dialect/MQTOpt/Transforms/MQTCoreRoundTrip.cpp
@@ -30,6 +30,9 @@ struct MQTCoreRoundTrip final : impl::MQTCoreRoundTripBase<MQTCoreRoundTrip> {
     auto op = getOperation();
     auto* ctx = &getContext();
 
+    // The pass may be run on several modules.
+    circuit = qc::QuantumComputation();
+
     // Define the set of patterns to use.
     mlir::RewritePatternSet patterns(ctx);
     populateToQuantumComputationPatterns(patterns, circuit);
-- 
2.43.0


From f4251dad3fc88911bc11576b1eb8aa7896125fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:21 +0000
Subject: [PATCH 114/142] fix: pushing quantum operations reordered block
 arguments and did not handle loops

---
 .../Transforms/QuantumSinkPushPattern.cpp     | 37 +++++++++++--------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/mlir/lib/Dialect/MQTOpt/Transforms/QuantumSinkPushPattern.cpp b/mlir/lib/Dialect/MQTOpt/Transforms/QuantumSinkPushPattern.cpp
index 75ef434..4bc4db7 100644
--- a/mlir/lib/Dialect/MQTOpt/Transforms/QuantumSinkPushPattern.cpp
+++ b/mlir/lib/Dialect/MQTOpt/Transforms/QuantumSinkPushPattern.cpp
@@ -23,6 +23,7 @@
 #include <mlir/Support/LLVM.h>
 #include <mlir/Support/LogicalResult.h>
 #include <unordered_set>
+#include <utility>
 #include <vector>
 
 namespace mqt::ir::opt {
@@ -51,22 +52,24 @@ struct QuantumSinkPushPattern final
    */
   int getDepth(mlir::Block& toCheck, const UnitaryInterface& op) const {
     auto* originalBlock = op->getBlock();
-    if (&toCheck == originalBlock) {
-      return 0;
-    }
-    int depth = -1;
-    for (auto* pred : toCheck.getPredecessors()) {
-      const auto result = getDepth(*pred, op);
-      if (result == -1) {
-        continue;
-      }
-      if (depth == -1) {
-        depth = result + 1;
-      } else {
-        depth = std::min(depth, result + 1);
+    // Breadth-first search, as the control flow graph may contain loops.
+    std::unordered_set<mlir::Block*> visited{&toCheck};
+    std::vector<mlir::Block*> current{&toCheck};
+    for (int depth = 0; !current.empty(); depth++) {
+      std::vector<mlir::Block*> next;
+      for (auto* block : current) {
+        if (block == originalBlock) {
+          return depth;
+        }
+        for (auto* pred : block->getPredecessors()) {
+          if (visited.insert(pred).second) {
+            next.emplace_back(pred);
+          }
+        }
       }
+      current = std::move(next);
     }
-    return depth;
+    return -1;
   }
 
   /**
@@ -221,7 +224,7 @@ struct QuantumSinkPushPattern final
       auto found =
           std::find(op->getResults().begin(), op->getResults().end(), arg);
       if (found == op->getResults().end()) {
-        newBlockArgs.emplace_back(arg);
+        newBlockArgs.insert(newBlockArgs.begin(), arg);
         continue;
       }
       auto idx = std::distance(op->getResults().begin(), found);
@@ -229,7 +232,9 @@ struct QuantumSinkPushPattern final
       block.eraseArgument(i);
     }
 
-    std::unordered_set<mlir::Block*> visited;
+    // Uses that are only reached through the block of the original operation
+    // refer to another execution of it.
+    std::unordered_set<mlir::Block*> visited{op->getBlock()};
     replaceAllChildUsesWith(*op, *clone, block, visited);
 
     // Now, the block instead needs to be passed the inputs of the pushed
-- 
2.43.0


From ad56f2d039618b81ab572211a1669c0a28b8678f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:21 +0000
Subject: [PATCH 115/142] fix: shifting quantum operations duplicated them for
 users in sequence and in loops

---
 .../Transforms/QuantumSinkShiftPattern.cpp    | 68 ++++++++++++++++---
 1 file changed, 60 insertions(+), 8 deletions(-)

diff --git a/mlir/lib/Dialect/MQTOpt/Transforms/QuantumSinkShiftPattern.cpp b/mlir/lib/Dialect/MQTOpt/Transforms/QuantumSinkShiftPattern.cpp
index 54486cf..f04dfa5 100644
--- a/mlir/lib/Dialect/MQTOpt/Transforms/QuantumSinkShiftPattern.cpp
+++ b/mlir/lib/Dialect/MQTOpt/Transforms/QuantumSinkShiftPattern.cpp
@@ -62,19 +62,23 @@ struct QuantumSinkShiftPattern final
    * @brief Returns the earliest users of a given operation.
    *
    * In this case, "earliest" denotes all operations that are not preceded
-   * another operation in the list of users.
+   * another operation in the list of users. Paths that lead through the block
+   * of the operation itself are not considered, as the operation is executed
+   * again on these.
    *
-   * @param users The users to find the earliest users for.
+   * @param op The operation to find the earliest users for.
+   * @param users The users of the operation.
    * @return A vector of all earliest users of the given operation.
    */
   [[nodiscard]] std::vector<mlir::Operation*>
-  getEarliestUsers(mlir::ResultRange::user_range users) const {
+  getEarliestUsers(mlir::Operation& op,
+                   const std::vector<mlir::Operation*>& users) const {
     std::vector<mlir::Operation*> earliestUsers;
     std::copy_if(
         users.begin(), users.end(), std::back_inserter(earliestUsers),
         [&](auto* user) {
           return std::none_of(users.begin(), users.end(), [&](auto* other) {
-            std::unordered_set<mlir::Block*> visited;
+            std::unordered_set<mlir::Block*> visited{op.getBlock()};
             return user != other && isAfterOrEqual(*user->getBlock(),
                                                    *other->getBlock(), visited);
           });
@@ -82,6 +86,40 @@ struct QuantumSinkShiftPattern final
     return earliestUsers;
   }
 
+  /**
+   * @brief Returns all users of a given operation, each of them once.
+   *
+   * @param op The operation to find the users of.
+   * @return A vector of all users of the given operation.
+   */
+  [[nodiscard]] static std::vector<mlir::Operation*>
+  getDistinctUsers(mlir::Operation& op) {
+    std::vector<mlir::Operation*> distinctUsers;
+    for (auto* user : op.getUsers()) {
+      if (std::find(distinctUsers.begin(), distinctUsers.end(), user) ==
+          distinctUsers.end()) {
+        distinctUsers.emplace_back(user);
+      }
+    }
+    return distinctUsers;
+  }
+
+  /**
+   * @brief Checks if a block may be executed several times after a single
+   * execution of a given operation.
+   *
+   * @param block The block to check.
+   * @param op The operation that is executed once.
+   */
+  [[nodiscard]] bool isRepeatedAfter(mlir::Block& block,
+                                     mlir::Operation& op) const {
+    auto parents = block.getPredecessors();
+    return std::any_of(parents.begin(), parents.end(), [&](auto* parent) {
+      std::unordered_set<mlir::Block*> visited{op.getBlock()};
+      return isAfterOrEqual(*parent, block, visited);
+    });
+  }
+
   mlir::LogicalResult match(UnitaryInterface op) const override {
     // We only consider 1-qubit gates.
     if (op.getOutQubits().size() != 1) {
@@ -98,9 +136,23 @@ struct QuantumSinkShiftPattern final
     // operand as pass-through and therefore removed it. If more than one user
     // is in the same block, then the `QuantumSinkShiftPattern` cannot be
     // applied
-    return std::all_of(
-               users.begin(), users.end(),
-               [&](auto* user) { return user->getBlock() != op->getBlock(); })
+    if (std::any_of(users.begin(), users.end(), [&](auto* user) {
+          return user->getBlock() == op->getBlock();
+        })) {
+      return mlir::failure();
+    }
+
+    // Every user receives its own copy of the operation. This is not possible
+    // for users that follow other users. Furthermore, the copies must not be
+    // executed more often than the original operation.
+    const auto distinctUsers = getDistinctUsers(*op);
+    return getEarliestUsers(*op, distinctUsers).size() ==
+                       distinctUsers.size() &&
+                   std::none_of(distinctUsers.begin(), distinctUsers.end(),
+                                [&](auto* user) {
+                                  return isRepeatedAfter(*user->getBlock(),
+                                                         *op);
+                                })
                ? mlir::success()
                : mlir::failure();
   }
@@ -132,7 +184,7 @@ struct QuantumSinkShiftPattern final
 
   void rewrite(UnitaryInterface op,
                mlir::PatternRewriter& rewriter) const override {
-    auto users = getEarliestUsers(op->getUsers());
+    auto users = getEarliestUsers(*op, getDistinctUsers(*op));
 
     for (auto* user : users) {
       auto* block = user->getBlock();
-- 
2.43.0


From 431b939a8a467b4b1a4d6e85beea829b91c95828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:21 +0000
Subject: [PATCH 116/142] fix: the round-trip pass read operations before their
 operands and deleted operations twice

---
 .../ToQuantumComputationPattern.cpp           | 80 +++++++++----------
 1 file changed, 38 insertions(+), 42 deletions(-)

diff --git a/mlir/lib/Dialect/MQTOpt/Transforms/ToQuantumComputationPattern.cpp b/mlir/lib/Dialect/MQTOpt/Transforms/ToQuantumComputationPattern.cpp
index 9c76d78..d63cb9e 100644
--- a/mlir/lib/Dialect/MQTOpt/Transforms/ToQuantumComputationPattern.cpp
+++ b/mlir/lib/Dialect/MQTOpt/Transforms/ToQuantumComputationPattern.cpp
@@ -75,6 +75,9 @@ struct ToQuantumComputationPattern final : mlir::OpRewritePattern<AllocOp> {
           "Operand is not an operation result. This should never happen!");
     }
     for (size_t i = 0; i < currentQubitVariables.size(); i++) {
+      if (!currentQubitVariables[i]) {
+        continue; // This qubit has not been extracted yet.
+      }
       size_t qubitArrayIndex = 0;
       if (auto opResult =
               llvm::dyn_cast<mlir::OpResult>(currentQubitVariables[i])) {
@@ -155,34 +158,6 @@ struct ToQuantumComputationPattern final : mlir::OpRewritePattern<AllocOp> {
     circuit.push_back(operation);
   }
 
-  /**
-   * @brief Recursively deletes an operation and all its defining operations if
-   * they have no users.
-   *
-   * This procedure cleans up the AST so that only the base `alloc` operation
-   * remains. Operations that still have users are ignored so that their users
-   * can be handled first in a later step.
-   *
-   * @param op The operation to delete.
-   * @param rewriter The pattern rewriter to use for deleting the operation.
-   */
-  static void deleteRecursively(mlir::Operation& op,
-                                mlir::PatternRewriter& rewriter) {
-    if (llvm::isa<AllocOp>(op)) {
-      return; // Do not delete extract operations.
-    }
-    if (!op.getUsers().empty()) {
-      return; // Do not delete operations with users.
-    }
-
-    rewriter.eraseOp(&op);
-    for (auto operand : op.getOperands()) {
-      if (auto* defOp = operand.getDefiningOp()) {
-        deleteRecursively(*defOp, rewriter);
-      }
-    }
-  }
-
   /**
    * @brief Updates the inputs of non MQTOpt-operations that use
    * MQTOpt-operations as inputs.
@@ -268,14 +243,36 @@ struct ToQuantumComputationPattern final : mlir::OpRewritePattern<AllocOp> {
 
     std::unordered_set<mlir::Operation*> visited{};
 
-    // Visit all operations in the AST using Breadth-First Search.
+    std::vector<mlir::Operation*> mqtoptOperations;
+    std::vector<mlir::Operation*> otherOperations;
+
+    // Visit all operations in the AST using Breadth-First Search. Operations
+    // are visited after all the operations that define their operands.
     while (!toVisit.empty()) {
       mlir::Operation* current = *toVisit.begin();
       toVisit.erase(toVisit.begin());
       if (visited.find(current) != visited.end()) {
         continue;
       }
+      if (current->getBlock() != op->getBlock()) {
+        throw std::runtime_error(
+            "Programs with several blocks not supported by round-trip pass!");
+      }
+      const auto isMQTOpt =
+          current->getDialect()->getNamespace() == DIALECT_NAME_MQTOPT;
+      const auto operands = current->getOperands();
+      if (isMQTOpt &&
+          std::any_of(operands.begin(), operands.end(), [&](auto operand) {
+            auto* definition = operand.getDefiningOp();
+            return definition != nullptr &&
+                   definition->getDialect()->getNamespace() ==
+                       DIALECT_NAME_MQTOPT &&
+                   visited.find(definition) == visited.end();
+          })) {
+        continue; // Will be reached again from its other operands.
+      }
       visited.insert(current);
+      (isMQTOpt ? mqtoptOperations : otherOperations).push_back(current);
 
       if (llvm::isa<XOp>(current)) {
         auto unitaryOp = llvm::dyn_cast<UnitaryInterface>(current);
@@ -321,22 +318,21 @@ struct ToQuantumComputationPattern final : mlir::OpRewritePattern<AllocOp> {
 
     // Update the inputs of all non-mqtopt operations that use mqtopt operations
     // as inputs, as these will be deleted later.
-    // NOLINTNEXTLINE(bugprone-nondeterministic-pointer-iteration-order)
-    for (auto* operation : visited) {
-      if (operation->getDialect()->getNamespace() != DIALECT_NAME_MQTOPT) {
-        updateMQTOptInputs(*operation, rewriter, newAlloc.getQureg(),
-                           measureCount);
-      }
+    for (auto* operation : otherOperations) {
+      updateMQTOptInputs(*operation, rewriter, newAlloc.getQureg(),
+                         measureCount);
     }
 
     // Delete all operations that are part of the mqtopt dialect (except for
-    // `AllocOp`).
-    // NOLINTNEXTLINE(bugprone-nondeterministic-pointer-iteration-order)
-    for (auto* operation : visited) {
-      if (operation->getDialect()->getNamespace() == DIALECT_NAME_MQTOPT) {
-        deleteRecursively(*operation, rewriter);
-      }
-    }
+    // `AllocOp`). The users of an operation are deleted before the operation
+    // itself. Operations that still have users are ignored.
+    std::for_each(mqtoptOperations.rbegin(), mqtoptOperations.rend(),
+                  [&rewriter](auto* operation) {
+                    if (!llvm::isa<AllocOp>(operation) &&
+                        operation->getUsers().empty()) {
+                      rewriter.eraseOp(operation);
+                    }
+                  });
 
     rewriter.replaceOp(op, newAlloc);
 
-- 
2.43.0


From 03eb95c4fc0b3b6c701cf4a3193ba5d244692388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:21 +0000
Subject: [PATCH 117/142] fix: the round-trip pass lost y, z and h gates

---
 .../FromQuantumComputationPattern.cpp         | 21 ++++++++++++----
 .../ToQuantumComputationPattern.cpp           | 25 +++++++++++++++++--
 2 files changed, 39 insertions(+), 7 deletions(-)

diff --git a/mlir/lib/Dialect/MQTOpt/Transforms/FromQuantumComputationPattern.cpp b/mlir/lib/Dialect/MQTOpt/Transforms/FromQuantumComputationPattern.cpp
index 631720a..a85f64a 100644
--- a/mlir/lib/Dialect/MQTOpt/Transforms/FromQuantumComputationPattern.cpp
+++ b/mlir/lib/Dialect/MQTOpt/Transforms/FromQuantumComputationPattern.cpp
@@ -84,12 +84,22 @@ struct FromQuantumComputationPattern final : mlir::OpRewritePattern<AllocOp> {
                                   inQubit.getType());
     const mlir::TypeRange outTypes(resultTypes);
 
+    const auto create = [&](auto tag) -> UnitaryInterface {
+      return rewriter.create<decltype(tag)>(
+          loc, outTypes, mlir::DenseF64ArrayAttr{}, mlir::DenseBoolArrayAttr{},
+          mlir::ValueRange{}, mlir::ValueRange{inQubit}, controlQubitsPositive,
+          controlQubitsNegative);
+    };
+
     switch (type) {
     case qc::OpType::X:
-      return rewriter.create<XOp>(loc, outTypes, mlir::DenseF64ArrayAttr{},
-                                  mlir::DenseBoolArrayAttr{},
-                                  mlir::ValueRange{}, mlir::ValueRange{inQubit},
-                                  controlQubitsPositive, controlQubitsNegative);
+      return create(XOp{});
+    case qc::OpType::Y:
+      return create(YOp{});
+    case qc::OpType::Z:
+      return create(ZOp{});
+    case qc::OpType::H:
+      return create(HOp{});
     default:
       throw std::runtime_error("Unsupported operation type");
     }
@@ -183,7 +193,8 @@ struct FromQuantumComputationPattern final : mlir::OpRewritePattern<AllocOp> {
         }
       }
 
-      if (o->getType() == qc::OpType::X) {
+      if (o->getType() == qc::OpType::X || o->getType() == qc::OpType::Y ||
+          o->getType() == qc::OpType::Z || o->getType() == qc::OpType::H) {
         // For unitary operations, we call the `createUnitaryOp` function. We
         // then have to update the `currentQubitVariables` vector with the new
         // qubit values.
diff --git a/mlir/lib/Dialect/MQTOpt/Transforms/ToQuantumComputationPattern.cpp b/mlir/lib/Dialect/MQTOpt/Transforms/ToQuantumComputationPattern.cpp
index d63cb9e..2437d70 100644
--- a/mlir/lib/Dialect/MQTOpt/Transforms/ToQuantumComputationPattern.cpp
+++ b/mlir/lib/Dialect/MQTOpt/Transforms/ToQuantumComputationPattern.cpp
@@ -121,6 +121,27 @@ struct ToQuantumComputationPattern final : mlir::OpRewritePattern<AllocOp> {
     }
   }
 
+  /**
+   * @brief Returns the type of the operation on the `qc::QuantumComputation`
+   * that corresponds to a given unitary operation.
+   *
+   * @param op The operation to find the type of.
+   *
+   * @return The type of the operation.
+   */
+  static qc::OpType getOpType(mlir::Operation& op) {
+    if (llvm::isa<YOp>(op)) {
+      return qc::OpType::Y;
+    }
+    if (llvm::isa<ZOp>(op)) {
+      return qc::OpType::Z;
+    }
+    if (llvm::isa<HOp>(op)) {
+      return qc::OpType::H;
+    }
+    return qc::OpType::X;
+  }
+
   /**
    * @brief Converts a unitary operation to an operation on the
    * `qc::QuantumComputation` and updates the `currentQubitVariables`.
@@ -154,7 +175,7 @@ struct ToQuantumComputationPattern final : mlir::OpRewritePattern<AllocOp> {
     // Add the operation to the QuantumComputation.
     auto operation = qc::StandardOperation(
         qc::Controls{ctrlInsIndices.cbegin(), ctrlInsIndices.cend()},
-        targetIndex, qc::OpType::X);
+        targetIndex, getOpType(*op));
     circuit.push_back(operation);
   }
 
@@ -274,7 +295,7 @@ struct ToQuantumComputationPattern final : mlir::OpRewritePattern<AllocOp> {
       visited.insert(current);
       (isMQTOpt ? mqtoptOperations : otherOperations).push_back(current);
 
-      if (llvm::isa<XOp>(current)) {
+      if (llvm::isa<XOp, YOp, ZOp, HOp>(current)) {
         auto unitaryOp = llvm::dyn_cast<UnitaryInterface>(current);
         handleUnitaryOp(unitaryOp, currentQubitVariables);
       } else if (llvm::isa<ExtractOp>(current)) {
-- 
2.43.0


From c269475d06beda4b9b7c94c151bc0b201048cdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:09 +0000
Subject: [PATCH 118/142] fix: import sxdg gates from Qiskit

---
 src/mqt/core/plugins/qiskit/qiskit_to_mqt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mqt/core/plugins/qiskit/qiskit_to_mqt.py b/src/mqt/core/plugins/qiskit/qiskit_to_mqt.py
index 3abd368..5995492 100644
--- a/src/mqt/core/plugins/qiskit/qiskit_to_mqt.py
+++ b/src/mqt/core/plugins/qiskit/qiskit_to_mqt.py
@@ -234,6 +234,9 @@ def _emplace_operation(
     if name in {"sx", "csx"}:
         return _add_operation(qc, OpType.sx, qargs, params, qubit_map)
 
+    if name == "sxdg":
+        return _add_operation(qc, OpType.sxdg, qargs, params, qubit_map)
+
     if name == "mcx_recursive":
         if len(qargs) <= 5:
             return _add_operation(qc, OpType.x, qargs, params, qubit_map)
-- 
2.43.0


From 51a11eb00e4cc871f15d33098c195f5f2e93d4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:21 +0000
Subject: [PATCH 119/142] fix: parse symbolic Qiskit parameters with all their
 signs and numbers

---
 src/mqt/core/plugins/qiskit/qiskit_to_mqt.py | 66 +++++---------------
 1 file changed, 17 insertions(+), 49 deletions(-)

diff --git a/src/mqt/core/plugins/qiskit/qiskit_to_mqt.py b/src/mqt/core/plugins/qiskit/qiskit_to_mqt.py
index 5995492..2f7c59b 100644
--- a/src/mqt/core/plugins/qiskit/qiskit_to_mqt.py
+++ b/src/mqt/core/plugins/qiskit/qiskit_to_mqt.py
@@ -10,11 +10,10 @@
 
 from __future__ import annotations
 
-import re
 import warnings
 from typing import TYPE_CHECKING, cast
 
-from qiskit.circuit import AncillaRegister, Clbit, Qubit
+from qiskit.circuit import AncillaRegister, Clbit, ControlledGate, Gate, Instruction, ParameterExpression, Qubit
 
 from ...ir import QuantumComputation
 from ...ir.operations import (
@@ -30,7 +29,7 @@ from ...ir.symbolic import Expression, Term, Variable
 if TYPE_CHECKING:
     from collections.abc import Mapping, Sequence
 
-    from qiskit.circuit import Instruction, ParameterExpression, QuantumCircuit
+    from qiskit.circuit import QuantumCircuit
 
 
 __all__ = ["qiskit_to_mqt"]
@@ -304,53 +303,22 @@ def _emplace_operation(
     raise NotImplementedError(msg)
 
 
-_SUM_REGEX = re.compile(r"[+|-]?[^+-]+")
-_PROD_REGEX = re.compile(r"[*/]?[^*/]+")
-
-
 def _parse_symbolic_expression(qiskit_expr: ParameterExpression | float) -> float | Expression:
-    if isinstance(qiskit_expr, float):
-        return qiskit_expr
-
-    expr_str = str(qiskit_expr).strip()
-    expr = Expression()
-    is_const = True
-    for summand in _SUM_REGEX.findall(expr_str):
-        sign = 1
-        summand_no_operator = summand
-        if summand[0] == "+":
-            summand_no_operator = summand[1:]
-        elif summand[0] == "-":
-            summand_no_operator = summand[1:]
-            sign = -1
-
-        coeff = 1.0
-        var = ""
-        for factor in _PROD_REGEX.findall(summand_no_operator):
-            is_div = False
-            factor_no_operator = factor
-            if factor[0] == "*":
-                factor_no_operator = factor[1:]
-            elif factor[0] == "/":
-                factor_no_operator = factor[1:]
-                is_div = True
-
-            factor_no_operator = factor_no_operator.strip()
-            if factor_no_operator.replace(".", "").isnumeric():
-                f = float(factor_no_operator)
-                coeff *= 1.0 / f if is_div else f
-            else:
-                var = factor_no_operator
-
-        if not var:
-            expr += coeff
-        else:
-            is_const = False
-            expr += Term(Variable(var), sign * coeff)
-
-    if is_const:
-        return expr.constant
-    return expr
+    if not isinstance(qiskit_expr, ParameterExpression):
+        return float(qiskit_expr)
+
+    terms = []
+    for parameter in sorted(qiskit_expr.parameters, key=lambda p: p.name):
+        coefficient = qiskit_expr.gradient(parameter)
+        if isinstance(coefficient, ParameterExpression) and coefficient.parameters:
+            msg = f"Non-linear symbolic expression {qiskit_expr} is not supported."
+            raise NotImplementedError(msg)
+        terms.append(Term(Variable(parameter.name), float(coefficient)))
+
+    constant = float(qiskit_expr.bind(dict.fromkeys(qiskit_expr.parameters, 0.0)))
+    if not terms:
+        return constant
+    return Expression(terms, constant)
 
 
 def _add_operation(
-- 
2.43.0


From 76fd3faf917528e458a265fe297c0b0927e4b3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:37 +0000
Subject: [PATCH 120/142] fix: keep the global phases of definitions imported
 from Qiskit

---
 src/mqt/core/plugins/qiskit/qiskit_to_mqt.py | 32 +++++++++++++-------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/mqt/core/plugins/qiskit/qiskit_to_mqt.py b/src/mqt/core/plugins/qiskit/qiskit_to_mqt.py
index 2f7c59b..0c6ad57 100644
--- a/src/mqt/core/plugins/qiskit/qiskit_to_mqt.py
+++ b/src/mqt/core/plugins/qiskit/qiskit_to_mqt.py
@@ -13,7 +13,7 @@ from __future__ import annotations
 import warnings
 from typing import TYPE_CHECKING, cast
 
-from qiskit.circuit import AncillaRegister, Clbit, ControlledGate, Gate, Instruction, ParameterExpression, Qubit
+from qiskit.circuit import AncillaRegister, Clbit, Instruction, ParameterExpression, Qubit
 
 from ...ir import QuantumComputation
 from ...ir.operations import (
@@ -78,15 +78,7 @@ def qiskit_to_mqt(circ: QuantumCircuit) -> QuantumComputation:
             clbit_map[bit] = clbit_index
             clbit_index += 1
 
-    try:
-        qc.global_phase = circ.global_phase
-    except TypeError:
-        warnings.warn(
-            "Symbolic global phase values are not supported yet. Setting global phase to 0.",
-            RuntimeWarning,
-            stacklevel=2,
-        )
-        qc.global_phase = 0
+    _add_global_phase(qc, circ)
 
     for instruction in circ.data:
         symb_params = _emplace_operation(
@@ -97,6 +89,7 @@ def qiskit_to_mqt(circ: QuantumCircuit) -> QuantumComputation:
             instruction.operation.params,
             qubit_map,
             clbit_map,
+            qc,
         )
         for symb_param in symb_params:
             qc.add_variable(symb_param)
@@ -170,6 +163,17 @@ _NATIVELY_SUPPORTED_GATES = frozenset({
 })
 
 
+def _add_global_phase(qc: QuantumComputation, circ: QuantumCircuit) -> None:
+    try:
+        qc.gphase(float(circ.global_phase))
+    except TypeError:
+        warnings.warn(
+            "Symbolic global phase values are not supported yet. Setting global phase to 0.",
+            RuntimeWarning,
+            stacklevel=3,
+        )
+
+
 def _emplace_operation(
     qc: QuantumComputation | CompoundOperation,
     instr: Instruction,
@@ -178,12 +182,13 @@ def _emplace_operation(
     params: Sequence[float | ParameterExpression],
     qubit_map: Mapping[Qubit, int],
     clbit_map: Mapping[Clbit, int],
+    root: QuantumComputation,
 ) -> list[float | ParameterExpression]:
     name = instr.name
 
     if name not in _NATIVELY_SUPPORTED_GATES:
         try:
-            return _import_definition(qc, instr.definition, qargs, cargs, qubit_map, clbit_map)
+            return _import_definition(qc, instr.definition, qargs, cargs, qubit_map, clbit_map, root)
         except Exception as ex:  # PRAGMA: NO COVER
             msg = f"Unsupported gate {name} with definition {instr.definition}"
             raise NotImplementedError(msg) from ex
@@ -395,6 +400,7 @@ def _import_definition(
     cargs: Sequence[Clbit],
     qubit_map: Mapping[Qubit, int],
     clbit_map: Mapping[Clbit, int],
+    root: QuantumComputation,
 ) -> list[float | ParameterExpression]:
     qarg_map = dict(zip(circ.qubits, qargs))
     carg_map = dict(zip(circ.clbits, cargs))
@@ -402,6 +408,9 @@ def _import_definition(
     qc.append(CompoundOperation())
     comp_op = cast("CompoundOperation", qc[-1])
 
+    # the global phase of a definition contributes to the global phase of the whole circuit
+    _add_global_phase(root, circ)
+
     params = []
     for instruction in circ.data:
         mapped_qargs = [qarg_map[qarg] for qarg in instruction.qubits]
@@ -415,6 +424,7 @@ def _import_definition(
             operation.params,
             qubit_map,
             clbit_map,
+            root,
         )
         params.extend(new_params)
     return params
-- 
2.43.0


From e8487efbb9062cb9f2371b8c1acc9c75c458c6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:37 +0000
Subject: [PATCH 121/142] fix: import custom Qiskit gates by their definition,
 whatever their name

---
 src/mqt/core/plugins/qiskit/qiskit_to_mqt.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mqt/core/plugins/qiskit/qiskit_to_mqt.py b/src/mqt/core/plugins/qiskit/qiskit_to_mqt.py
index 0c6ad57..509510b 100644
--- a/src/mqt/core/plugins/qiskit/qiskit_to_mqt.py
+++ b/src/mqt/core/plugins/qiskit/qiskit_to_mqt.py
@@ -13,7 +13,7 @@ from __future__ import annotations
 import warnings
 from typing import TYPE_CHECKING, cast
 
-from qiskit.circuit import AncillaRegister, Clbit, Instruction, ParameterExpression, Qubit
+from qiskit.circuit import AncillaRegister, Clbit, ControlledGate, Gate, Instruction, ParameterExpression, Qubit
 
 from ...ir import QuantumComputation
 from ...ir.operations import (
@@ -186,7 +186,9 @@ def _emplace_operation(
 ) -> list[float | ParameterExpression]:
     name = instr.name
 
-    if name not in _NATIVELY_SUPPORTED_GATES:
+    # instructions with a user-provided definition may share their name with a natively supported gate
+    is_custom = type(instr) in {Gate, Instruction, ControlledGate} and instr.definition is not None
+    if is_custom or name not in _NATIVELY_SUPPORTED_GATES:
         try:
             return _import_definition(qc, instr.definition, qargs, cargs, qubit_map, clbit_map, root)
         except Exception as ex:  # PRAGMA: NO COVER
-- 
2.43.0


From e7c145a08ab458708fac602866b2dc61e4ac3277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:37 +0000
Subject: [PATCH 122/142] fix: export the global phase to Qiskit

---
 src/mqt/core/plugins/qiskit/mqt_to_qiskit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mqt/core/plugins/qiskit/mqt_to_qiskit.py b/src/mqt/core/plugins/qiskit/mqt_to_qiskit.py
index 1073097..4b65bf8 100644
--- a/src/mqt/core/plugins/qiskit/mqt_to_qiskit.py
+++ b/src/mqt/core/plugins/qiskit/mqt_to_qiskit.py
@@ -318,6 +318,8 @@ def mqt_to_qiskit(qc: QuantumComputation, *, set_layout: bool = False) -> Quantu
     for op in qc:
         _add_operation(circ, op, qubit_map, clbit_map)
 
+    circ.global_phase = qc.global_phase
+
     if not set_layout:
         return circ
 
-- 
2.43.0


From 32e8fa03d0e80aafeb41f6c9219861384fcd32e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:37 +0000
Subject: [PATCH 123/142] fix: export V and Vdg gates to Qiskit

---
 src/mqt/core/plugins/qiskit/mqt_to_qiskit.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mqt/core/plugins/qiskit/mqt_to_qiskit.py b/src/mqt/core/plugins/qiskit/mqt_to_qiskit.py
index 4b65bf8..aeeb7ca 100644
--- a/src/mqt/core/plugins/qiskit/mqt_to_qiskit.py
+++ b/src/mqt/core/plugins/qiskit/mqt_to_qiskit.py
@@ -10,6 +10,7 @@
 
 from __future__ import annotations
 
+from math import pi
 from typing import TYPE_CHECKING
 
 from qiskit.circuit import AncillaRegister, ClassicalRegister, Clbit, QuantumCircuit, QuantumRegister, Qubit
@@ -58,7 +59,7 @@ from ...ir.operations import (
 if TYPE_CHECKING:
     from collections.abc import Mapping, Sequence
 
-    from qiskit.circuit.singleton import SingletonGate
+    from qiskit.circuit import Gate
 
     from ...ir import QuantumComputation
 
@@ -121,7 +122,7 @@ def _add_standard_operation(circ: QuantumCircuit, op: StandardOperation, qubit_m
 
     controls, ctrl_state = _translate_controls(op.controls, qubit_map)
 
-    gate_map_singleton: dict[OpType, SingletonGate] = {
+    gate_map_singleton: dict[OpType, Gate] = {
         OpType.i: IGate(),
         OpType.x: XGate(),
         OpType.y: YGate(),
@@ -133,6 +134,8 @@ def _add_standard_operation(circ: QuantumCircuit, op: StandardOperation, qubit_m
         OpType.tdg: TdgGate(),
         OpType.sx: SXGate(),
         OpType.sxdg: SXdgGate(),
+        OpType.v: RXGate(pi / 2),
+        OpType.vdg: RXGate(-pi / 2),
         OpType.dcx: DCXGate(),
         OpType.ecr: ECRGate(),
         OpType.swap: SwapGate(),
-- 
2.43.0


From d5de8fc930a9721e5c617e346cd9783cd301562d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:37 +0000
Subject: [PATCH 124/142] fix: export the output permutation as the final
 Qiskit layout

---
 src/mqt/core/plugins/qiskit/mqt_to_qiskit.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/mqt/core/plugins/qiskit/mqt_to_qiskit.py b/src/mqt/core/plugins/qiskit/mqt_to_qiskit.py
index aeeb7ca..8013492 100644
--- a/src/mqt/core/plugins/qiskit/mqt_to_qiskit.py
+++ b/src/mqt/core/plugins/qiskit/mqt_to_qiskit.py
@@ -340,7 +340,14 @@ def mqt_to_qiskit(qc: QuantumComputation, *, set_layout: bool = False) -> Quantu
         for p, v in qc.initial_layout.items():
             if v == virtual:
                 permutation[p] = physical
-                continue
+                break
+
+    # qubits that are not part of the output permutation may end up at any of the remaining positions
+    positions = dict(permutation.items())
+    sources = [p for p in range(len(circ.qubits)) if p not in positions]
+    destinations = [p for p in range(len(circ.qubits)) if p not in positions.values()]
+    for source, destination in zip(sources, destinations):
+        permutation[source] = destination
 
     p2v = [None] * len(circ.qubits)
     # fill the list with the correct virtual qubits
@@ -353,7 +360,7 @@ def mqt_to_qiskit(qc: QuantumComputation, *, set_layout: bool = False) -> Quantu
         input_qubit_mapping={qubit: idx for idx, qubit in qubit_map.items()},
         final_layout=final_layout,
         _input_qubit_count=qc.num_qubits,
-        _output_qubit_list=list(final_layout.get_virtual_bits()),
+        _output_qubit_list=circ.qubits,
     )
 
     return circ
-- 
2.43.0


From aa4233b204b3496c2f190aae6c202dc97fb20b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:58 +0000
Subject: [PATCH 125/142] fix: Operation::removeControls with the operation's
 own controls

---
 include/mqt-core/ir/operations/Operation.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/mqt-core/ir/operations/Operation.hpp b/include/mqt-core/ir/operations/Operation.hpp
index 5bcdbff..c87344b 100644
--- a/include/mqt-core/ir/operations/Operation.hpp
+++ b/include/mqt-core/ir/operations/Operation.hpp
@@ -119,8 +119,9 @@ public:
   virtual Controls::iterator removeControl(Controls::iterator it) = 0;
 
   void removeControls(const Controls& c) {
-    for (auto it = c.begin(); it != c.end();) {
-      it = removeControl(it);
+    // the given controls may be the ones of the operation itself
+    for (const auto& control : Controls(c)) {
+      removeControl(control);
     }
   }
 
-- 
2.43.0


From ec17f2a041eab555e3c0c2312585f9202fe56dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:58 +0000
Subject: [PATCH 126/142] fix: check the number of states given to
 makeBasisState

---
 src/dd/Package.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/dd/Package.cpp b/src/dd/Package.cpp
index a092040..da6a6b7 100644
--- a/src/dd/Package.cpp
+++ b/src/dd/Package.cpp
@@ -198,6 +198,11 @@ vEdge Package::makeBasisState(const std::size_t n,
         std::to_string(nqubits) +
         " qubits. Please allocate a larger package instance."};
   }
+  if (state.size() < n + start) {
+    throw std::runtime_error("Insufficient qubit states provided. Requested " +
+                             std::to_string(n + start) + ", but received " +
+                             std::to_string(state.size()));
+  }
   auto f = vEdge::one();
   for (std::size_t p = start; p < n + start; ++p) {
     if (!state[p]) {
@@ -219,9 +224,9 @@ vEdge Package::makeBasisState(const std::size_t n,
         std::to_string(nqubits) +
         " qubits. Please allocate a larger package instance."};
   }
-  if (state.size() < n) {
+  if (state.size() < n + start) {
     throw std::runtime_error("Insufficient qubit states provided. Requested " +
-                             std::to_string(n) + ", but received " +
+                             std::to_string(n + start) + ", but received " +
                              std::to_string(state.size()));
   }
 
-- 
2.43.0


From c9c9d87c2573c98a8f6e7e9c990f9e02e345744a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:58 +0000
Subject: [PATCH 127/142] fix: check classical bits in
 applyClassicControlledOperation

---
 src/dd/Operations.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dd/Operations.cpp b/src/dd/Operations.cpp
index 60297cb..4bd1c28 100644
--- a/src/dd/Operations.cpp
+++ b/src/dd/Operations.cpp
@@ -266,14 +266,14 @@ VectorDD applyClassicControlledOperation(
     const auto regStart = controlRegister->getStartIndex();
     const auto regSize = controlRegister->getSize();
     for (std::size_t j = 0; j < regSize; ++j) {
-      if (measurements[regStart + j]) {
+      if (measurements.at(regStart + j)) {
         actualValue |= 1ULL << j;
       }
     }
   }
   if (const auto& controlBit = op.getControlBit(); controlBit.has_value()) {
     assert(!op.getControlRegister().has_value());
-    actualValue = measurements[*controlBit] ? 1U : 0U;
+    actualValue = measurements.at(*controlBit) ? 1U : 0U;
   }
 
   // check if the actual value matches the expected value according to the
-- 
2.43.0


From f8d903d9cdfee0e1469812dabc2a3e1c9e4c1ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:58 +0000
Subject: [PATCH 128/142] fix: check indices given to VectorDD and
 measure_collapsing from Python

---
 src/python/dd/register_dd_package.cpp | 3 +++
 src/python/dd/register_vector_dds.cpp | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/src/python/dd/register_dd_package.cpp b/src/python/dd/register_dd_package.cpp
index b7bb57e..864334e 100644
--- a/src/python/dd/register_dd_package.cpp
+++ b/src/python/dd/register_dd_package.cpp
@@ -226,6 +226,9 @@ void registerDDPackage(const py::module& mod) {
   dd.def(
       "measure_collapsing",
       [](dd::Package& p, dd::vEdge& v, const dd::Qubit q) {
+        if (v.isTerminal() || q > v.p->v) {
+          throw py::index_error("Qubit index out of range.");
+        }
         static std::mt19937_64 rng(std::random_device{}());
         return p.measureOneCollapsing(v, q, rng);
       },
diff --git a/src/python/dd/register_vector_dds.cpp b/src/python/dd/register_vector_dds.cpp
index b5a3ed1..1be70cc 100644
--- a/src/python/dd/register_vector_dds.cpp
+++ b/src/python/dd/register_vector_dds.cpp
@@ -45,6 +45,10 @@ void registerVectorDDs(const py::module& mod) {
   vec.def(
       "__getitem__",
       [](const dd::vEdge& v, const size_t idx) {
+        const size_t dim = v.isTerminal() ? 1ULL : 2ULL << v.p->v;
+        if (idx >= dim) {
+          throw py::index_error();
+        }
         return v.getValueByIndex(idx);
       },
       "index"_a);
-- 
2.43.0


From e943f18642304a7db54a8342009b04d2fcbae2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:58 +0000
Subject: [PATCH 129/142] fix: refuse vectors and matrices larger than the
 package

---
 src/python/dd/register_dd_package.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/python/dd/register_dd_package.cpp b/src/python/dd/register_dd_package.cpp
index 864334e..f7f64c5 100644
--- a/src/python/dd/register_dd_package.cpp
+++ b/src/python/dd/register_dd_package.cpp
@@ -163,6 +163,10 @@ void registerDDPackage(const py::module& mod) {
         }
 
         const auto level = static_cast<dd::Qubit>(std::log2(length) - 1);
+        if (level >= p.qubits()) {
+          throw std::invalid_argument(
+              "State vector has more qubits than the package supports.");
+        }
         const auto state = makeDDFromVector(p, data, 0, length, level);
         const dd::vEdge e{state.p, p.cn.lookup(state.w)};
         p.incRef(e);
@@ -367,6 +371,10 @@ void registerDDPackage(const py::module& mod) {
           return dd::mEdge::terminal(p.cn.lookup(data(0, 0)));
         }
         const auto level = static_cast<dd::Qubit>(std::log2(rows) - 1);
+        if (level >= p.qubits()) {
+          throw std::invalid_argument(
+              "Matrix has more qubits than the package supports.");
+        }
         const auto matrixDD =
             makeDDFromMatrix(p, data, 0, rows, 0, cols, level);
         return dd::mEdge{matrixDD.p, p.cn.lookup(matrixDD.w)};
-- 
2.43.0


From f6bdd3317deaa1d24b9fa5147ba06c41e21fc8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:58 +0000
Subject: [PATCH 130/142] fix: DDPackage.apply_measurement from Python

---
 src/python/dd/register_dd_package.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/python/dd/register_dd_package.cpp b/src/python/dd/register_dd_package.cpp
index f7f64c5..9e5188d 100644
--- a/src/python/dd/register_dd_package.cpp
+++ b/src/python/dd/register_dd_package.cpp
@@ -188,19 +188,21 @@ void registerDDPackage(const py::module& mod) {
 
   dd.def(
       "apply_measurement",
-      [](dd::Package& p, const dd::vEdge& v, const qc::NonUnitaryOperation& op,
+      [](const py::object& self, const dd::vEdge& v,
+         const qc::NonUnitaryOperation& op,
          const std::vector<bool>& measurements,
          const qc::Permutation& perm = {}) {
         static std::mt19937_64 rng(std::random_device{}());
+        auto& p = self.cast<dd::Package&>();
         auto measurementsCopy = measurements;
-        return std::pair{
-            dd::applyMeasurement(op, v, p, rng, measurementsCopy, perm),
-            measurementsCopy};
+        const auto vec = py::cast(
+            dd::applyMeasurement(op, v, p, rng, measurementsCopy, perm));
+        // keep the DD package alive while the returned vector DD is alive.
+        py::detail::keep_alive_impl(vec, self);
+        return py::make_tuple(vec, measurementsCopy);
       },
       "vec"_a, "operation"_a, "measurements"_a,
-      "permutation"_a = qc::Permutation{},
-      // keep the DD package alive while the returned vector DD is alive.
-      py::keep_alive<0, 1>());
+      "permutation"_a = qc::Permutation{});
 
   dd.def(
       "apply_reset",
-- 
2.43.0


From 48eb74ce7764795dba41cbd81eef031ba389bc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:58 +0000
Subject: [PATCH 131/142] fix: keep the package alive while diagrams built by
 the Python functions are

---
 src/python/dd/register_dd.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/python/dd/register_dd.cpp b/src/python/dd/register_dd.cpp
index 2cfc07c..b1765c9 100644
--- a/src/python/dd/register_dd.cpp
+++ b/src/python/dd/register_dd.cpp
@@ -80,7 +80,9 @@ PYBIND11_MODULE(dd, mod, py::mod_gil_not_used()) {
       },
       "qc"_a, "recursive"_a = false);
 
-  mod.def("simulate", &dd::simulate, "qc"_a, "initial_state"_a, "dd_package"_a);
+  mod.def("simulate", &dd::simulate, "qc"_a, "initial_state"_a, "dd_package"_a,
+          // keep the DD package alive while the returned vector DD is alive.
+          py::keep_alive<0, 3>());
 
   mod.def(
       "build_functionality",
@@ -91,7 +93,9 @@ PYBIND11_MODULE(dd, mod, py::mod_gil_not_used()) {
         }
         return dd::buildFunctionality(qc, p);
       },
-      "qc"_a, "dd_package"_a, "recursive"_a = false);
+      "qc"_a, "dd_package"_a, "recursive"_a = false,
+      // keep the DD package alive while the returned matrix DD is alive.
+      py::keep_alive<0, 2>());
 }
 
 } // namespace mqt
-- 
2.43.0


From 585ff47858f1044f7b0133a6fad87a3b96b2ac49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:58 +0000
Subject: [PATCH 132/142] fix: compare operations with other Python objects

---
 src/python/ir/operations/register_operation.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/python/ir/operations/register_operation.cpp b/src/python/ir/operations/register_operation.cpp
index 9c23a9d..75db45b 100644
--- a/src/python/ir/operations/register_operation.cpp
+++ b/src/python/ir/operations/register_operation.cpp
@@ -52,10 +52,18 @@ void registerOperation(const py::module& m) {
       .def("is_controlled", &qc::Operation::isControlled)
       .def("get_inverted", &qc::Operation::getInverted)
       .def("invert", &qc::Operation::invert)
-      .def("__eq__", [](const qc::Operation& op,
-                        const qc::Operation& other) { return op == other; })
-      .def("__ne__", [](const qc::Operation& op,
-                        const qc::Operation& other) { return op != other; })
+      .def(
+          "__eq__",
+          [](const qc::Operation& op, const qc::Operation& other) {
+            return op == other;
+          },
+          py::is_operator())
+      .def(
+          "__ne__",
+          [](const qc::Operation& op, const qc::Operation& other) {
+            return op != other;
+          },
+          py::is_operator())
       .def("__hash__",
            [](const qc::Operation& op) {
              return std::hash<qc::Operation>{}(op);
-- 
2.43.0


From 46812b7714fb84ff8bec75309c9bd90f78e973d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:58 +0000
Subject: [PATCH 133/142] fix: refuse None as operation in the Python
 constructors

---
 .../operations/register_classic_controlled_operation.cpp  | 8 ++++----
 src/python/ir/operations/register_compound_operation.cpp  | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/python/ir/operations/register_classic_controlled_operation.cpp b/src/python/ir/operations/register_classic_controlled_operation.cpp
index 49a46cb..71c1670 100644
--- a/src/python/ir/operations/register_classic_controlled_operation.cpp
+++ b/src/python/ir/operations/register_classic_controlled_operation.cpp
@@ -36,18 +36,18 @@ void registerClassicControlledOperation(const py::module& m) {
   auto ccop = py::class_<qc::ClassicControlledOperation, qc::Operation>(
       m, "ClassicControlledOperation");
 
-  ccop.def(py::init([](const qc::Operation* operation,
+  ccop.def(py::init([](const qc::Operation& operation,
                        const qc::ClassicalRegister& controlReg,
                        std::uint64_t expectedVal, qc::ComparisonKind cmp) {
              return std::make_unique<qc::ClassicControlledOperation>(
-                 operation->clone(), controlReg, expectedVal, cmp);
+                 operation.clone(), controlReg, expectedVal, cmp);
            }),
            "operation"_a, "control_register"_a, "expected_value"_a = 1U,
            "comparison_kind"_a = qc::ComparisonKind::Eq);
-  ccop.def(py::init([](const qc::Operation* operation, qc::Bit cBit,
+  ccop.def(py::init([](const qc::Operation& operation, qc::Bit cBit,
                        std::uint64_t expectedVal, qc::ComparisonKind cmp) {
              return std::make_unique<qc::ClassicControlledOperation>(
-                 operation->clone(), cBit, expectedVal, cmp);
+                 operation.clone(), cBit, expectedVal, cmp);
            }),
            "operation"_a, "control_bit"_a, "expected_value"_a = 1U,
            "comparison_kind"_a = qc::ComparisonKind::Eq);
diff --git a/src/python/ir/operations/register_compound_operation.cpp b/src/python/ir/operations/register_compound_operation.cpp
index 6eba958..56ca6b7 100644
--- a/src/python/ir/operations/register_compound_operation.cpp
+++ b/src/python/ir/operations/register_compound_operation.cpp
@@ -36,11 +36,11 @@ void registerCompoundOperation(const py::module& m) {
 
   py::class_<qc::CompoundOperation, qc::Operation>(m, "CompoundOperation")
       .def(py::init<>())
-      .def(py::init([](const std::vector<qc::Operation*>& ops) {
+      .def(py::init([](const std::vector<std::reference_wrapper<const qc::Operation>>& ops) {
              std::vector<std::unique_ptr<qc::Operation>> uniqueOps;
              uniqueOps.reserve(ops.size());
-             for (auto& op : ops) {
-               uniqueOps.emplace_back(op->clone());
+             for (const auto& op : ops) {
+               uniqueOps.emplace_back(op.get().clone());
              }
              return qc::CompoundOperation(std::move(uniqueOps));
            }),
-- 
2.43.0


From 5466fbdff3dd6947ebaf1a7a09bc00d2c8a6221c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:58 +0000
Subject: [PATCH 134/142] fix: iterate over permutations from Python

---
 src/python/ir/register_permutation.cpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/python/ir/register_permutation.cpp b/src/python/ir/register_permutation.cpp
index ee34b46..e8c9fe7 100644
--- a/src/python/ir/register_permutation.cpp
+++ b/src/python/ir/register_permutation.cpp
@@ -47,14 +47,22 @@ void registerPermutation(py::module& m) {
       .def("__len__", &qc::Permutation::size)
       .def("__iter__",
            [](const qc::Permutation& p) {
-             return py::make_key_iterator(p.begin(), p.end());
+             // iterate over a copy, as the permutation may change or die
+             py::list keys;
+             for (const auto& [key, _] : p) {
+               keys.append(key);
+             }
+             return py::iter(keys);
+           })
+      .def("items",
+           [](const qc::Permutation& p) {
+             // iterate over a copy, as the permutation may change or die
+             py::list items;
+             for (const auto& item : p) {
+               items.append(item);
+             }
+             return py::iter(items);
            })
-      .def(
-          "items",
-          [](const qc::Permutation& p) {
-            return py::make_iterator(p.begin(), p.end());
-          },
-          py::keep_alive<0, 1>())
       .def(py::self == py::self)
       .def(py::self != py::self)
       .def(hash(py::self))
-- 
2.43.0


From ce96596c50a2a862b5abf043e9bd47a092170ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:58 +0000
Subject: [PATCH 135/142] fix: keyword names of the Python bindings as
 documented

---
 src/python/ir/operations/register_symbolic_operation.cpp | 2 +-
 src/python/ir/register_permutation.cpp                   | 2 +-
 src/python/ir/register_quantum_computation.cpp           | 8 +++++---
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/python/ir/operations/register_symbolic_operation.cpp b/src/python/ir/operations/register_symbolic_operation.cpp
index 06e3152..3f0216c 100644
--- a/src/python/ir/operations/register_symbolic_operation.cpp
+++ b/src/python/ir/operations/register_symbolic_operation.cpp
@@ -55,7 +55,7 @@ void registerSymbolicOperation(const py::module& m) {
                     const std::vector<qc::SymbolOrNumber>&>(),
            "controls"_a, "target0"_a, "target1"_a, "op_type"_a,
            "params"_a = std::vector<qc::SymbolOrNumber>{})
-      .def("get_parameter", &qc::SymbolicOperation::getParameter)
+      .def("get_parameter", &qc::SymbolicOperation::getParameter, "idx"_a)
       .def("get_parameters", &qc::SymbolicOperation::getParameters)
       .def("get_instantiated_operation",
            &qc::SymbolicOperation::getInstantiatedOperation, "assignment"_a)
diff --git a/src/python/ir/register_permutation.cpp b/src/python/ir/register_permutation.cpp
index e8c9fe7..f708480 100644
--- a/src/python/ir/register_permutation.cpp
+++ b/src/python/ir/register_permutation.cpp
@@ -28,7 +28,7 @@ void registerPermutation(py::module& m) {
              }
              return perm;
            }),
-           "perm"_a, "Create a permutation from a dictionary.")
+           "permutation"_a, "Create a permutation from a dictionary.")
       .def("apply",
            py::overload_cast<const qc::Controls&>(&qc::Permutation::apply,
                                                   py::const_),
diff --git a/src/python/ir/register_quantum_computation.cpp b/src/python/ir/register_quantum_computation.cpp
index 41f5e7b..1704177 100644
--- a/src/python/ir/register_quantum_computation.cpp
+++ b/src/python/ir/register_quantum_computation.cpp
@@ -391,7 +391,7 @@ void registerQuantumComputation(py::module& m) {
 #undef DEFINE_TWO_TARGET_SINGLE_PARAMETER_OPERATION
 #undef DEFINE_TWO_TARGET_TWO_PARAMETER_OPERATION
 
-  qc.def("gphase", &qc::QuantumComputation::gphase, "phase"_a);
+  qc.def("gphase", &qc::QuantumComputation::gphase, "theta"_a);
 
   qc.def("measure",
          py::overload_cast<qc::Qubit, std::size_t>(
@@ -415,8 +415,10 @@ void registerQuantumComputation(py::module& m) {
   qc.def("barrier", py::overload_cast<>(&qc::QuantumComputation::barrier));
   qc.def("barrier",
          py::overload_cast<qc::Qubit>(&qc::QuantumComputation::barrier), "q"_a);
-  qc.def("barrier", py::overload_cast<const std::vector<qc::Qubit>&>(
-                        &qc::QuantumComputation::barrier));
+  qc.def("barrier",
+         py::overload_cast<const std::vector<qc::Qubit>&>(
+             &qc::QuantumComputation::barrier),
+         "qubits"_a);
 
   qc.def(
       "classic_controlled",
-- 
2.43.0


From 56f121004d76d61411c9c94758903018d71c6793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:58 +0000
Subject: [PATCH 136/142] fix: bind set_circuit_qubits_ancillary and iswapdg

---
 src/python/ir/register_quantum_computation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/ir/register_quantum_computation.cpp b/src/python/ir/register_quantum_computation.cpp
index 1704177..5f7a77e 100644
--- a/src/python/ir/register_quantum_computation.cpp
+++ b/src/python/ir/register_quantum_computation.cpp
@@ -220,7 +220,7 @@ void registerQuantumComputation(py::module& m) {
       "ancillary", py::overload_cast<>(&qc::QuantumComputation::getAncillary));
   qc.def("set_circuit_qubit_ancillary",
          &qc::QuantumComputation::setLogicalQubitAncillary, "q"_a);
-  qc.def("se_circuit_qubits_ancillary",
+  qc.def("set_circuit_qubits_ancillary",
          &qc::QuantumComputation::setLogicalQubitsAncillary, "q_min"_a,
          "q_max"_a);
   qc.def("is_circuit_qubit_ancillary",
@@ -356,6 +356,7 @@ void registerQuantumComputation(py::module& m) {
   DEFINE_TWO_TARGET_OPERATION(dcx)
   DEFINE_TWO_TARGET_OPERATION(ecr)
   DEFINE_TWO_TARGET_OPERATION(iswap)
+  DEFINE_TWO_TARGET_OPERATION(iswapdg)
   DEFINE_TWO_TARGET_OPERATION(peres)
   DEFINE_TWO_TARGET_OPERATION(peresdg)
 
-- 
2.43.0


From 1dbe54a1af2ef056193ec54349acd6bac9c75a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:58 +0000
Subject: [PATCH 137/142] fix: set the global phase from Python

---
 src/python/ir/register_quantum_computation.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/ir/register_quantum_computation.cpp b/src/python/ir/register_quantum_computation.cpp
index 5f7a77e..6d3f1dd 100644
--- a/src/python/ir/register_quantum_computation.cpp
+++ b/src/python/ir/register_quantum_computation.cpp
@@ -76,7 +76,9 @@ void registerQuantumComputation(py::module& m) {
   qc.def("num_total_ops", &qc::QuantumComputation::getNindividualOps);
   qc.def("depth", &qc::QuantumComputation::getDepth);
   qc.def_property("global_phase", &qc::QuantumComputation::getGlobalPhase,
-                  &qc::QuantumComputation::gphase);
+                  [](qc::QuantumComputation& circ, const qc::fp phase) {
+                    circ.gphase(phase - circ.getGlobalPhase());
+                  });
   qc.def("invert", &qc::QuantumComputation::invert);
   qc.def("to_operation", &qc::QuantumComputation::asOperation);
 
-- 
2.43.0


From 67a3bdcd4a514dd1c746ff3ce957132de7a8ea0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:12 +0000
Subject: [PATCH 138/142] fix: slices and removed operations of circuits in
 Python

---
 include/mqt-core/python/pybind11.hpp          | 17 +++++++
 .../register_compound_operation.cpp           | 44 +++++++++++++-----
 .../ir/register_quantum_computation.cpp       | 45 ++++++++++++++-----
 3 files changed, 84 insertions(+), 22 deletions(-)

diff --git a/include/mqt-core/python/pybind11.hpp b/include/mqt-core/python/pybind11.hpp
index b14343f..48d13fc 100644
--- a/include/mqt-core/python/pybind11.hpp
+++ b/include/mqt-core/python/pybind11.hpp
@@ -15,8 +15,25 @@
 #include <pybind11/pybind11.h> // IWYU pragma: export
 #include <pybind11/stl.h>      // IWYU pragma: export
 
+#include <memory>
+
 namespace mqt {
 namespace py = pybind11;
 using namespace py::literals;
 
+/**
+ * @brief Releases an object that is removed from its C++ container.
+ * @details Python objects referring to the object keep it alive; without any,
+ * it is deleted.
+ */
+template <class T> void releaseToPython(std::unique_ptr<T> obj) {
+  if (obj == nullptr) {
+    return;
+  }
+  const auto ref = py::cast(obj.get(), py::return_value_policy::reference);
+  const auto owner = py::capsule(
+      obj.release(), [](void* ptr) { delete static_cast<T*>(ptr); });
+  py::detail::keep_alive_impl(ref, owner);
+}
+
 } // namespace mqt
diff --git a/src/python/ir/operations/register_compound_operation.cpp b/src/python/ir/operations/register_compound_operation.cpp
index 56ca6b7..7406081 100644
--- a/src/python/ir/operations/register_compound_operation.cpp
+++ b/src/python/ir/operations/register_compound_operation.cpp
@@ -12,7 +12,9 @@
 #include "ir/operations/Operation.hpp"
 #include "python/pybind11.hpp"
 
+#include <algorithm>
 #include <cstddef>
+#include <functional>
 #include <memory>
 #include <sstream>
 #include <utility>
@@ -65,8 +67,9 @@ void registerCompoundOperation(const py::module& m) {
             }
             auto ops = std::vector<qc::Operation*>();
             ops.reserve(sliceLength);
-            for (std::size_t i = start; i < stop; i += step) {
-              ops.emplace_back(op.at(i).get());
+            for (std::size_t i = 0; i < sliceLength; ++i) {
+              ops.emplace_back(op.at(start).get());
+              start += step;
             }
             return ops;
           },
@@ -76,13 +79,15 @@ void registerCompoundOperation(const py::module& m) {
           [&wrap](qc::CompoundOperation& compOp, DiffType i,
                   const qc::Operation& op) {
             i = wrap(i, compOp.size());
-            compOp[static_cast<SizeType>(i)] = op.clone();
+            auto clone = op.clone();
+            std::swap(compOp[static_cast<SizeType>(i)], clone);
+            releaseToPython(std::move(clone));
           },
           "idx"_a, "op"_a)
       .def(
           "__setitem__",
           [](qc::CompoundOperation& compOp, const py::slice& slice,
-             const std::vector<qc::Operation*>& ops) {
+             const std::vector<std::reference_wrapper<const qc::Operation>>& ops) {
             std::size_t start{};
             std::size_t stop{};
             std::size_t step{};
@@ -95,8 +100,15 @@ void registerCompoundOperation(const py::module& m) {
               throw std::runtime_error(
                   "Length of slice and number of operations do not match.");
             }
-            for (std::size_t i = 0; i < sliceLength; ++i) {
-              compOp[start] = ops[i]->clone();
+            // clone first: the operations may be the ones that get replaced
+            std::vector<std::unique_ptr<qc::Operation>> clones;
+            clones.reserve(ops.size());
+            for (const auto& op : ops) {
+              clones.emplace_back(op.get().clone());
+            }
+            for (auto& op : clones) {
+              std::swap(compOp[start], op);
+              releaseToPython(std::move(op));
               start += step;
             }
           },
@@ -105,6 +117,7 @@ void registerCompoundOperation(const py::module& m) {
           "__delitem__",
           [&wrap](qc::CompoundOperation& compOp, DiffType i) {
             i = wrap(i, compOp.size());
+            releaseToPython(std::move(*(compOp.begin() + i)));
             compOp.erase(compOp.begin() + i);
           },
           "idx"_a)
@@ -119,10 +132,13 @@ void registerCompoundOperation(const py::module& m) {
                                &sliceLength)) {
               throw py::error_already_set();
             }
-            // delete in reverse order to not invalidate indices
-            for (std::size_t i = sliceLength; i > 0; --i) {
-              compOp.erase(compOp.begin() +
-                           static_cast<int64_t>(start + (i - 1) * step));
+            // delete from back to front to not invalidate indices
+            const auto descending = static_cast<DiffType>(step) < 0;
+            for (std::size_t i = 0; i < sliceLength; ++i) {
+              const auto k = descending ? i : sliceLength - 1 - i;
+              const auto it = compOp.begin() + static_cast<DiffType>(start + (k * step));
+              releaseToPython(std::move(*it));
+              compOp.erase(it);
             }
           },
           "slice"_a)
@@ -141,7 +157,13 @@ void registerCompoundOperation(const py::module& m) {
           },
           "idx"_a, "op"_a)
       .def("empty", &qc::CompoundOperation::empty)
-      .def("clear", &qc::CompoundOperation::clear)
+      .def("clear",
+           [](qc::CompoundOperation& compOp) {
+             for (auto& op : compOp) {
+               releaseToPython(std::move(op));
+             }
+             compOp.clear();
+           })
       .def("__repr__", [](const qc::CompoundOperation& op) {
         std::stringstream ss;
         ss << "CompoundOperation([..." << op.size() << " ops...])";
diff --git a/src/python/ir/register_quantum_computation.cpp b/src/python/ir/register_quantum_computation.cpp
index 6d3f1dd..8dffd68 100644
--- a/src/python/ir/register_quantum_computation.cpp
+++ b/src/python/ir/register_quantum_computation.cpp
@@ -18,9 +18,13 @@
 #include "python/pybind11.hpp"
 #include "qasm3/Importer.hpp"
 
+#include <algorithm>
 #include <cstddef>
 #include <cstdint>
+#include <filesystem>
+#include <functional>
 #include <memory>
+#include <pybind11/stl/filesystem.h>
 #include <stdexcept>
 #include <string>
 #include <utility>
@@ -106,8 +110,9 @@ void registerQuantumComputation(py::module& m) {
         }
         auto ops = std::vector<qc::Operation*>();
         ops.reserve(sliceLength);
-        for (std::size_t i = start; i < stop; i += step) {
-          ops.emplace_back(circ.at(i).get());
+        for (std::size_t i = 0; i < sliceLength; ++i) {
+          ops.emplace_back(circ.at(start).get());
+          start += step;
         }
         return ops;
       },
@@ -117,13 +122,15 @@ void registerQuantumComputation(py::module& m) {
       [&wrap](qc::QuantumComputation& circ, DiffType i,
               const qc::Operation& op) {
         i = wrap(i, circ.getNops());
-        circ.at(static_cast<SizeType>(i)) = op.clone();
+        auto clone = op.clone();
+        std::swap(circ.at(static_cast<SizeType>(i)), clone);
+        releaseToPython(std::move(clone));
       },
       "idx"_a, "op"_a);
   qc.def(
       "__setitem__",
       [](qc::QuantumComputation& circ, const py::slice& slice,
-         const std::vector<qc::Operation*>& ops) {
+         const std::vector<std::reference_wrapper<const qc::Operation>>& ops) {
         std::size_t start{};
         std::size_t stop{};
         std::size_t step{};
@@ -136,8 +143,15 @@ void registerQuantumComputation(py::module& m) {
           throw std::runtime_error(
               "Length of slice and number of operations do not match.");
         }
-        for (std::size_t i = 0; i < sliceLength; ++i) {
-          circ.at(start) = ops[i]->clone();
+        // clone first: the operations may be the ones that get replaced
+        std::vector<std::unique_ptr<qc::Operation>> clones;
+        clones.reserve(ops.size());
+        for (const auto& op : ops) {
+          clones.emplace_back(op.get().clone());
+        }
+        for (auto& op : clones) {
+          std::swap(circ.at(start), op);
+          releaseToPython(std::move(op));
           start += step;
         }
       },
@@ -146,6 +160,7 @@ void registerQuantumComputation(py::module& m) {
       "__delitem__",
       [&wrap](qc::QuantumComputation& circ, DiffType i) {
         i = wrap(i, circ.getNops());
+        releaseToPython(std::move(*(circ.begin() + i)));
         circ.erase(circ.begin() + i);
       },
       "idx"_a);
@@ -160,10 +175,13 @@ void registerQuantumComputation(py::module& m) {
                            &sliceLength)) {
           throw py::error_already_set();
         }
-        // delete in reverse order to not invalidate indices
-        for (std::size_t i = sliceLength; i > 0; --i) {
-          circ.erase(circ.begin() +
-                     static_cast<int64_t>(start + (i - 1) * step));
+        // delete from back to front to not invalidate indices
+        const auto descending = static_cast<DiffType>(step) < 0;
+        for (std::size_t i = 0; i < sliceLength; ++i) {
+          const auto k = descending ? i : sliceLength - 1 - i;
+          const auto it = circ.begin() + static_cast<DiffType>(start + (k * step));
+          releaseToPython(std::move(*it));
+          circ.erase(it);
         }
       },
       "slice"_a);
@@ -182,7 +200,12 @@ void registerQuantumComputation(py::module& m) {
       },
       "op"_a);
   qc.def("reverse", &qc::QuantumComputation::reverse);
-  qc.def("clear", py::overload_cast<>(&qc::QuantumComputation::reset));
+  qc.def("clear", [](qc::QuantumComputation& circ) {
+    for (auto& op : circ) {
+      releaseToPython(std::move(op));
+    }
+    circ.reset();
+  });
 
   ///---------------------------------------------------------------------------
   ///                         \n (Qu)Bit Registers \n
-- 
2.43.0


From 76c218b8171f0ef81cb888f868cd9facbd24db9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:12 +0000
Subject: [PATCH 139/142] fix: accept path objects in qasm2 and qasm3

---
 src/python/ir/register_quantum_computation.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/python/ir/register_quantum_computation.cpp b/src/python/ir/register_quantum_computation.cpp
index 8dffd68..d2f6767 100644
--- a/src/python/ir/register_quantum_computation.cpp
+++ b/src/python/ir/register_quantum_computation.cpp
@@ -288,16 +288,18 @@ void registerQuantumComputation(py::module& m) {
          [](const qc::QuantumComputation& circ) { return circ.toQASM(false); });
   qc.def(
       "qasm2",
-      [](const qc::QuantumComputation& circ, const std::string& filename) {
-        circ.dump(filename, qc::Format::OpenQASM2);
+      [](const qc::QuantumComputation& circ,
+         const std::filesystem::path& filename) {
+        circ.dump(filename.string(), qc::Format::OpenQASM2);
       },
       "filename"_a);
   qc.def("qasm3_str",
          [](const qc::QuantumComputation& circ) { return circ.toQASM(true); });
   qc.def(
       "qasm3",
-      [](const qc::QuantumComputation& circ, const std::string& filename) {
-        circ.dump(filename, qc::Format::OpenQASM3);
+      [](const qc::QuantumComputation& circ,
+         const std::filesystem::path& filename) {
+        circ.dump(filename.string(), qc::Format::OpenQASM3);
       },
       "filename"_a);
   qc.def("__str__", [](const qc::QuantumComputation& circ) {
-- 
2.43.0


From df0dcd4bb131112d30f2775cbd65915de4049b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:12 +0000
Subject: [PATCH 140/142] fix: insert at any position from Python

---
 src/python/ir/operations/register_compound_operation.cpp | 8 +++++---
 src/python/ir/register_quantum_computation.cpp           | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/python/ir/operations/register_compound_operation.cpp b/src/python/ir/operations/register_compound_operation.cpp
index 7406081..eeb1f73 100644
--- a/src/python/ir/operations/register_compound_operation.cpp
+++ b/src/python/ir/operations/register_compound_operation.cpp
@@ -150,10 +150,12 @@ void registerCompoundOperation(const py::module& m) {
           "op"_a)
       .def(
           "insert",
-          [](qc::CompoundOperation& compOp, const std::size_t idx,
+          [](qc::CompoundOperation& compOp, DiffType idx,
              const qc::Operation& op) {
-            compOp.insert(compOp.begin() + static_cast<int64_t>(idx),
-                          op.clone());
+            // as for Python lists: count from the end, out of range is clamped
+            const auto size = static_cast<DiffType>(compOp.size());
+            idx = std::clamp(idx < 0 ? idx + size : idx, DiffType{0}, size);
+            compOp.insert(compOp.begin() + idx, op.clone());
           },
           "idx"_a, "op"_a)
       .def("empty", &qc::CompoundOperation::empty)
diff --git a/src/python/ir/register_quantum_computation.cpp b/src/python/ir/register_quantum_computation.cpp
index d2f6767..7512e71 100644
--- a/src/python/ir/register_quantum_computation.cpp
+++ b/src/python/ir/register_quantum_computation.cpp
@@ -188,9 +188,11 @@ void registerQuantumComputation(py::module& m) {
   qc.def("__len__", &qc::QuantumComputation::getNops);
   qc.def(
       "insert",
-      [](qc::QuantumComputation& circ, std::size_t idx,
-         const qc::Operation& op) {
-        circ.insert(circ.begin() + static_cast<int64_t>(idx), op.clone());
+      [](qc::QuantumComputation& circ, DiffType idx, const qc::Operation& op) {
+        // as for Python lists: count from the end, out of range is clamped
+        const auto size = static_cast<DiffType>(circ.getNops());
+        idx = std::clamp(idx < 0 ? idx + size : idx, DiffType{0}, size);
+        circ.insert(circ.begin() + idx, op.clone());
       },
       "idx"_a, "op"_a);
   qc.def(
-- 
2.43.0


From 69e9e2a8ae89def51be451082c10eee5db3b47a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:17 +0000
Subject: [PATCH 141/142] verification hook: initial garbage collection limit
 (MQT_CORE_VERIF_GC)

---
 include/mqt-core/dd/DDDefinitions.hpp         | 6 ++++++
 include/mqt-core/dd/RealNumberUniqueTable.hpp | 9 +++++++++
 include/mqt-core/dd/UniqueTable.hpp           | 9 +++++++++
 3 files changed, 24 insertions(+)

diff --git a/include/mqt-core/dd/DDDefinitions.hpp b/include/mqt-core/dd/DDDefinitions.hpp
index 7284e14..c8bf0ff 100644
--- a/include/mqt-core/dd/DDDefinitions.hpp
+++ b/include/mqt-core/dd/DDDefinitions.hpp
@@ -48,6 +48,12 @@ static_assert(
     std::is_floating_point_v<fp>,
     "fp should be a floating point type (float, *double*, long double)");
 
+#ifdef MQT_CORE_VERIF_GC
+// Lets monitors lower the initial garbage collection limits of packages
+// created from now on, so that small workloads collect garbage as well.
+inline std::size_t verifGCLimit = SIZE_MAX;
+#endif
+
 // logic radix
 static constexpr std::uint8_t RADIX = 2;
 // max no. of edges = RADIX^2
diff --git a/include/mqt-core/dd/RealNumberUniqueTable.hpp b/include/mqt-core/dd/RealNumberUniqueTable.hpp
index f038ff9..0b7cde3 100644
--- a/include/mqt-core/dd/RealNumberUniqueTable.hpp
+++ b/include/mqt-core/dd/RealNumberUniqueTable.hpp
@@ -14,6 +14,9 @@
 #include "dd/MemoryManager.hpp"
 #include "dd/statistics/UniqueTableStatistics.hpp"
 
+#ifdef MQT_CORE_VERIF_GC
+#include <algorithm>
+#endif
 #include <array>
 #include <cstddef>
 #include <cstdint>
@@ -58,8 +61,14 @@ public:
    * @param manager The memory manager to use for allocating new numbers.
    * @param initialGCLim The initial garbage collection limit.
    */
+#ifdef MQT_CORE_VERIF_GC
+  explicit RealNumberUniqueTable(
+      MemoryManager& manager,
+      std::size_t initialGCLim = std::min(INITIAL_GC_LIMIT, verifGCLimit));
+#else
   explicit RealNumberUniqueTable(MemoryManager& manager,
                                  std::size_t initialGCLim = INITIAL_GC_LIMIT);
+#endif
 
   /**
    * @brief The hash function for the hash table.
diff --git a/include/mqt-core/dd/UniqueTable.hpp b/include/mqt-core/dd/UniqueTable.hpp
index 9fcb600..cf681e1 100644
--- a/include/mqt-core/dd/UniqueTable.hpp
+++ b/include/mqt-core/dd/UniqueTable.hpp
@@ -21,6 +21,11 @@
 #include "dd/statistics/UniqueTableStatistics.hpp"
 #include "ir/Definitions.hpp"
 
+#ifdef MQT_CORE_VERIF_GC
+#include "dd/DDDefinitions.hpp"
+
+#include <algorithm>
+#endif
 #include <cstddef>
 #include <cstdint>
 #include <functional>
@@ -53,7 +58,11 @@ public:
     std::size_t nBuckets = 32768;
 
     /// The initial garbage collection limit
+#ifdef MQT_CORE_VERIF_GC
+    std::size_t initialGCLimit = std::min(INITIAL_GC_LIMIT, verifGCLimit);
+#else
     std::size_t initialGCLimit = INITIAL_GC_LIMIT;
+#endif
   };
 
   /**
-- 
2.43.0


From 16ad451e6cb0a50daf4e5dd75214a624cc9276ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:26 +0000
Subject: [PATCH 142/142] fix: normalize the weight of identities in
 reduceGarbage

---
 src/dd/Package.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dd/Package.cpp b/src/dd/Package.cpp
index da6a6b7..f6cfab4 100644
--- a/src/dd/Package.cpp
+++ b/src/dd/Package.cpp
@@ -1234,6 +1234,9 @@ mEdge Package::reduceGarbage(const mEdge& e, const std::vector<bool>& garbage,
         }
       }
     }
+    if (normalizeWeights) {
+      g.w = cn.lookup(ComplexNumbers::mag(g.w));
+    }
     incRef(g);
     return g;
   }
-- 
2.43.0

