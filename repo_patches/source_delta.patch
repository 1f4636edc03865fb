From d6a808f7c81b9a39d5f0c78e1f03066df8732755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:29 +0000
Subject: [PATCH 01/49] fix: pair eigenvalues with their own eigenvectors in
 exp2x2/log2x2

---
 src/common/functions.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/common/functions.cpp b/src/common/functions.cpp
index b5d28b1..f5302e1 100644
--- a/src/common/functions.cpp
+++ b/src/common/functions.cpp
@@ -148,10 +148,11 @@ void _expLog2x2(const complex* matrix2x2, complex* outMatrix2x2, bool isExp)
         jacobian[1U] = matrix2x2[1U];
         jacobian[3U] = matrix2x2[3U] - eigenvalue2;
 
-        outMatrix2x2[0U] = eigenvalue1;
+        // The columns of (M - eigenvalue1) are eigenvectors of eigenvalue2, and vice versa.
+        outMatrix2x2[0U] = eigenvalue2;
         outMatrix2x2[1U] = ZERO_CMPLX;
         outMatrix2x2[2U] = ZERO_CMPLX;
-        outMatrix2x2[3U] = eigenvalue2;
+        outMatrix2x2[3U] = eigenvalue1;
 
         real1 nrm = (real1)std::sqrt((real1_s)(norm(jacobian[0U]) + norm(jacobian[2U])));
         jacobian[0U] /= nrm;
-- 
2.43.0


From c2b41c6e67bdcc79008389d939ea93d0b298914c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:29 +0000
Subject: [PATCH 02/49] fix: TimeEvolve with a uniformly controlled Hamiltonian
 exponentiates -i*H*t, as the plain form does

---
 src/qinterface/gates.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/qinterface/gates.cpp b/src/qinterface/gates.cpp
index 7065399..e0918fd 100644
--- a/src/qinterface/gates.cpp
+++ b/src/qinterface/gates.cpp
@@ -444,7 +444,7 @@ void QInterface::TimeEvolve(Hamiltonian h, real1_f timeDiff_f)
         std::unique_ptr<complex[]> mtrx(new complex[maxJ]);
 
         for (bitCapIntOcl j = 0U; j < maxJ; ++j) {
-            mtrx[j] = opMtrx[j] * (-timeDiff);
+            mtrx[j] = I_CMPLX * (opMtrx[j] * (-timeDiff));
         }
 
         if (op->toggles.size()) {
@@ -462,9 +462,8 @@ void QInterface::TimeEvolve(Hamiltonian h, real1_f timeDiff_f)
             }
             UniformlyControlledSingleBit(op->controls, op->targetBit, expMtrx.get());
         } else {
-            complex timesI[4U]{ I_CMPLX * mtrx[0U], I_CMPLX * mtrx[1U], I_CMPLX * mtrx[2U], I_CMPLX * mtrx[3U] };
             complex toApply[4U];
-            exp2x2(timesI, toApply);
+            exp2x2(mtrx.get(), toApply);
             if (op->controls.size() == 0U) {
                 Mtrx(toApply, op->targetBit);
             } else if (op->anti) {
-- 
2.43.0


From a56b3aa948203e1bbfd87ec42f80b18667504ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:23 +0000
Subject: [PATCH 03/49] fix: FSim keeps the sign of cos(theta) and one phi
 convention on every simulator type

---
 include/qinterface.hpp    |  6 +++++-
 include/qunitclifford.hpp |  2 +-
 src/qbdt/tree.cpp         | 19 +++++++++++++------
 src/qengine/qengine.cpp   |  4 ++--
 src/qpager.cpp            | 17 +++++++++++------
 src/qstabilizer.cpp       | 22 +++++++++++++++++-----
 6 files changed, 49 insertions(+), 21 deletions(-)

diff --git a/include/qinterface.hpp b/include/qinterface.hpp
index 70ef79c..6ed63e5 100644
--- a/include/qinterface.hpp
+++ b/include/qinterface.hpp
@@ -2388,7 +2388,11 @@ public:
         MCPhase(controls, ONE_CMPLX, expIPhi, qubit2);
 
         if ((2 * abs(sinTheta)) <= (FP_NORM_EPSILON * PI_R1)) {
-            // ISWAP power is 0.
+            // ISWAP power is 0, up to the sign of cos(theta).
+            if (cos(theta) < 0) {
+                Z(qubit1);
+                Z(qubit2);
+            }
             return;
         }
 
diff --git a/include/qunitclifford.hpp b/include/qunitclifford.hpp
index cc260e5..2c78c77 100644
--- a/include/qunitclifford.hpp
+++ b/include/qunitclifford.hpp
@@ -782,7 +782,7 @@ public:
         std::vector<bitLenInt> bits{ c, t };
         std::vector<bitLenInt*> ebits{ &bits[0U], &bits[1U] };
         QStabilizerPtr unit = EntangleInCurrentBasis(ebits.begin(), ebits.end());
-        unit->FSim(theta, phi, c, t);
+        unit->FSim(theta, phi, bits[0U], bits[1U]);
         CombinePhaseOffsets(unit);
         TrySeparate(c);
         TrySeparate(t);
diff --git a/src/qbdt/tree.cpp b/src/qbdt/tree.cpp
index 671a62e..4836002 100644
--- a/src/qbdt/tree.cpp
+++ b/src/qbdt/tree.cpp
@@ -759,20 +759,27 @@ void QBdt::FSim(real1_f theta, real1_f phi, bitLenInt qubit1, bitLenInt qubit2)
 
     const std::vector<bitLenInt> controls{ qubit1 };
     const real1_f sinTheta = sin(theta);
+    const real1_f cosTheta = cos(theta);
+    const complex expIPhi = exp(complex(ZERO_R1, -(real1)phi));
+
     if ((sinTheta * sinTheta) <= FP_NORM_EPSILON_F) {
-        return MCPhase(controls, ONE_CMPLX, exp(complex(ZERO_R1, (real1)phi)), qubit2);
+        if (cosTheta < ZERO_R1_F) {
+            Z(qubit1);
+            Z(qubit2);
+        }
+
+        return MCPhase(controls, ONE_CMPLX, expIPhi, qubit2);
     }
 
-    const complex expIPhi = exp(complex(ZERO_R1, (real1)phi));
-    const real1_f sinThetaDiffNeg = ONE_R1_F + sinTheta;
-    if ((sinThetaDiffNeg * sinThetaDiffNeg) <= FP_NORM_EPSILON_F) {
+    const bool isFullISwap = (cosTheta * cosTheta) <= FP_NORM_EPSILON_F;
+
+    if (isFullISwap && (sinTheta < ZERO_R1_F)) {
         ISwap(qubit1, qubit2);
 
         return MCPhase(controls, ONE_CMPLX, expIPhi, qubit2);
     }
 
-    const real1_f sinThetaDiffPos = ONE_R1_F - sinTheta;
-    if ((sinThetaDiffPos * sinThetaDiffPos) <= FP_NORM_EPSILON_F) {
+    if (isFullISwap) {
         IISwap(qubit1, qubit2);
 
         return MCPhase(controls, ONE_CMPLX, expIPhi, qubit2);
diff --git a/src/qengine/qengine.cpp b/src/qengine/qengine.cpp
index c9a1d73..858f395 100644
--- a/src/qengine/qengine.cpp
+++ b/src/qengine/qengine.cpp
@@ -448,8 +448,8 @@ void QEngine::FSim(real1_f theta, real1_f phi, bitLenInt qubit1, bitLenInt qubit
     }
 
     const real1 sinTheta = (real1)sin(theta);
-    if ((sinTheta * sinTheta) > FP_NORM_EPSILON) {
-        const real1 cosTheta = (real1)cos(theta);
+    const real1 cosTheta = (real1)cos(theta);
+    if (((sinTheta * sinTheta) > FP_NORM_EPSILON) || (cosTheta < ZERO_R1)) {
         const complex fSimSwap[4U]{ complex(cosTheta, ZERO_R1), complex(ZERO_R1, -sinTheta),
             complex(ZERO_R1, -sinTheta), complex(cosTheta, ZERO_R1) };
         const bitCapIntOcl qPowersSorted[2U]{ pow2Ocl(qubit1), pow2Ocl(qubit2) };
diff --git a/src/qpager.cpp b/src/qpager.cpp
index 80c4428..d774c97 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -1422,22 +1422,27 @@ void QPager::FSim(real1_f theta, real1_f phi, bitLenInt qubit1, bitLenInt qubit2
 
     const std::vector<bitLenInt> controls{ qubit1 };
     const real1 sinTheta = (real1)sin(theta);
+    const real1 cosTheta = (real1)cos(theta);
+    const complex expIPhi = exp(complex(ZERO_R1, -(real1)phi));
 
     if ((sinTheta * sinTheta) <= FP_NORM_EPSILON) {
-        return MCPhase(controls, ONE_CMPLX, exp(complex(ZERO_R1, (real1)phi)), qubit2);
+        if (cosTheta < ZERO_R1) {
+            Z(qubit1);
+            Z(qubit2);
+        }
+
+        return MCPhase(controls, ONE_CMPLX, expIPhi, qubit2);
     }
 
-    const complex expIPhi = exp(complex(ZERO_R1, (real1)phi));
+    const bool isFullISwap = (cosTheta * cosTheta) <= FP_NORM_EPSILON;
 
-    const real1 sinThetaDiffNeg = ONE_R1 + sinTheta;
-    if ((sinThetaDiffNeg * sinThetaDiffNeg) <= FP_NORM_EPSILON) {
+    if (isFullISwap && (sinTheta < ZERO_R1)) {
         ISwap(qubit1, qubit2);
 
         return MCPhase(controls, ONE_CMPLX, expIPhi, qubit2);
     }
 
-    const real1 sinThetaDiffPos = ONE_R1 - sinTheta;
-    if ((sinThetaDiffPos * sinThetaDiffPos) <= FP_NORM_EPSILON) {
+    if (isFullISwap) {
         IISwap(qubit1, qubit2);
 
         return MCPhase(controls, ONE_CMPLX, expIPhi, qubit2);
diff --git a/src/qstabilizer.cpp b/src/qstabilizer.cpp
index df74a39..d553107 100644
--- a/src/qstabilizer.cpp
+++ b/src/qstabilizer.cpp
@@ -32,7 +32,7 @@
 #endif
 
 #define IS_0_R1(r) (abs(r) <= REAL1_EPSILON)
-#define IS_1_R1(r) (abs(r) <= REAL1_EPSILON)
+#define IS_1_R1(r) (abs((r) - ONE_R1) <= REAL1_EPSILON)
 
 namespace Qrack {
 
@@ -2355,15 +2355,27 @@ void QStabilizer::MACInvert(
 void QStabilizer::FSim(real1_f theta, real1_f phi, bitLenInt qubit1, bitLenInt qubit2)
 {
     const std::vector<bitLenInt> controls{ qubit1 };
-    real1 sinTheta = (real1)sin(theta);
+    const real1 sinTheta = (real1)sin(theta);
+    const complex expIPhi = exp(complex(ZERO_R1, -(real1)phi));
 
+    // (The phase commutes with the swap. Apply it first, in case it throws.)
     if (IS_0_R1(sinTheta)) {
-        return MCPhase(controls, ONE_CMPLX, exp(complex(ZERO_R1, (real1)phi)), qubit2);
+        MCPhase(controls, ONE_CMPLX, expIPhi, qubit2);
+        if (cos(theta) < 0) {
+            Z(qubit1);
+            Z(qubit2);
+        }
+        return;
     }
 
     if (IS_1_R1(-sinTheta)) {
-        ISwap(qubit1, qubit2);
-        return MCPhase(controls, ONE_CMPLX, exp(complex(ZERO_R1, (real1)phi)), qubit2);
+        MCPhase(controls, ONE_CMPLX, expIPhi, qubit2);
+        return ISwap(qubit1, qubit2);
+    }
+
+    if (IS_1_R1(sinTheta)) {
+        MCPhase(controls, ONE_CMPLX, expIPhi, qubit2);
+        return IISwap(qubit1, qubit2);
     }
 
     throw std::domain_error("QStabilizer::FSim() not implemented for non-Clifford/Pauli cases!");
-- 
2.43.0


From 35abfb651258ac258550020050e9f50991607d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:06 +0000
Subject: [PATCH 04/49] fix: expectation and variance of weighted bits, Pauli
 strings and 3-parameter unitary bases

VarianceFloatsFactorized multiplied weights instead of taking deviations of their sum from the mean;
the inverse of U(theta, phi, lambda) exchanges phi and lambda; erasing identity Paulis skipped elements;
QUnitClifford added the offset once per separable unit.
---
 src/qinterface/qinterface.cpp | 18 ++++++++++--------
 src/qunitclifford.cpp         |  6 ++++--
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/qinterface/qinterface.cpp b/src/qinterface/qinterface.cpp
index 0804b1f..8b7f112 100644
--- a/src/qinterface/qinterface.cpp
+++ b/src/qinterface/qinterface.cpp
@@ -523,7 +523,8 @@ real1_f QInterface::ExpVarUnitaryAll(bool isExp, const std::vector<bitLenInt>& b
 
     for (size_t i = 0U; i < bits.size(); ++i) {
         const size_t i3 = 3U * i;
-        U(bits[i], -basisOps[i3], -basisOps[i3 + 1U], -basisOps[i3 + 2U]);
+        // (The inverse also exchanges "phi" and "lambda.")
+        U(bits[i], -basisOps[i3], -basisOps[i3 + 2U], -basisOps[i3 + 1U]);
     }
 
     const real1_f toRet =
@@ -644,11 +645,12 @@ real1_f QInterface::VarianceFloatsFactorized(const std::vector<bitLenInt>& bits,
 
     real1_f expectation = ZERO_R1_F;
     for (bitCapInt lcv = ZERO_BCI; bi_compare(lcv, maxQPower) < 0; bi_increment(&lcv, 1U)) {
-        real1_f weight = ONE_R1_F;
+        real1_f weight = ZERO_R1_F;
         for (size_t p = 0U; p < bits.size(); ++p) {
-            weight *= (bi_compare_0(lcv & bitPowers[p]) == 0) ? weights[p << 1U] : weights[(p << 1U) | 1U];
+            weight += (bi_compare_0(lcv & bitPowers[p]) != 0) ? weights[(p << 1U) | 1U] : weights[p << 1U];
         }
-        expectation += weight * ProbAll(lcv);
+        const real1_f diff = weight - mean;
+        expectation += diff * diff * ProbAll(lcv);
     }
 
     return expectation;
@@ -656,8 +658,8 @@ real1_f QInterface::VarianceFloatsFactorized(const std::vector<bitLenInt>& bits,
 
 real1_f QInterface::VariancePauliAll(std::vector<bitLenInt> bits, std::vector<Pauli> paulis)
 {
-    for (size_t i = 0U; i < bits.size(); ++i) {
-        const size_t j = bits.size() - (i + 1U);
+    for (size_t i = bits.size(); i > 0U; --i) {
+        const size_t j = i - 1U;
         if (paulis[j] == PauliI) {
             bits.erase(bits.begin() + j);
             paulis.erase(paulis.begin() + j);
@@ -712,8 +714,8 @@ real1_f QInterface::VariancePauliAll(std::vector<bitLenInt> bits, std::vector<Pa
 
 real1_f QInterface::ExpectationPauliAll(std::vector<bitLenInt> bits, std::vector<Pauli> paulis)
 {
-    for (size_t i = 0U; i < bits.size(); ++i) {
-        const size_t j = bits.size() - (i + 1U);
+    for (size_t i = bits.size(); i > 0U; --i) {
+        const size_t j = i - 1U;
         if (paulis[j] == PauliI) {
             bits.erase(bits.begin() + j);
             paulis.erase(paulis.begin() + j);
diff --git a/src/qunitclifford.cpp b/src/qunitclifford.cpp
index 3cc79bd..19c820b 100644
--- a/src/qunitclifford.cpp
+++ b/src/qunitclifford.cpp
@@ -63,14 +63,16 @@ real1_f QUnitClifford::ExpVarBitsFactorized(
         permMap[shard.unit].push_back(perms[(i << 1U) | 1U]);
     }
 
+    // The offset applies once, rather than once per separable subsystem.
     real1_f expectation = ZERO_R1;
     if (isExp) {
+        expectation = (real1_f)bi_to_double(offset);
         for (const auto& p : qubitMap) {
-            expectation += p.first->ExpectationBitsFactorized(p.second, permMap[p.first], offset);
+            expectation += p.first->ExpectationBitsFactorized(p.second, permMap[p.first], ZERO_BCI);
         }
     } else {
         for (const auto& p : qubitMap) {
-            expectation += p.first->VarianceBitsFactorized(p.second, permMap[p.first], offset);
+            expectation += p.first->VarianceBitsFactorized(p.second, permMap[p.first], ZERO_BCI);
         }
     }
 
-- 
2.43.0


From ae89f8d87113c276b0b55be41122f0087813625c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:31 +0000
Subject: [PATCH 05/49] fix: dense-engine decompose phases, forced/unapplied
 multi-bit measurement, ProbReg, and carries of full-width increments

- DecomposeDispose averaged phase angles arithmetically, which is wrong modulo 2*PI (|->|-> came out wrong);
- QEngine::ForceM(bits, values) ignored a single forced value and "doApply", and could read past its array;
- ForceM(bits, {}, false) returned a compact key instead of a mask of the measured positions;
- QInterface::ProbReg built wrong permutations; INCC/DECC/INCSC/DECSC dropped the carry of +2^length;
- IndexedSBC skipped as many bits as its value register holds, instead of the carry alone.
---
 src/qengine/arithmetic.cpp    |  18 ++++--
 src/qengine/qengine.cpp       |  14 ++---
 src/qengine/state.cpp         | 104 ++++++++++++----------------------
 src/qinterface/qinterface.cpp |  13 ++++-
 4 files changed, 67 insertions(+), 82 deletions(-)

diff --git a/src/qengine/arithmetic.cpp b/src/qengine/arithmetic.cpp
index 67d640d..67f49a2 100644
--- a/src/qengine/arithmetic.cpp
+++ b/src/qengine/arithmetic.cpp
@@ -168,7 +168,9 @@ void QEngineCPU::INCDECC(const bitCapInt& toMod, bitLenInt inOutStart, bitLenInt
 
     const bitCapIntOcl lengthPower = pow2Ocl(length);
     const bitCapIntOcl lengthMask = lengthPower - 1U;
-    const bitCapIntOcl toModOcl = (bitCapIntOcl)toMod & lengthMask;
+    // (A "toMod" of exactly "lengthPower" leaves the register as it is, but carries.)
+    const bitCapIntOcl toModOcl =
+        ((bitCapIntOcl)toMod == lengthPower) ? lengthPower : ((bitCapIntOcl)toMod & lengthMask);
 
     if (!toModOcl) {
         return;
@@ -271,7 +273,9 @@ void QEngineCPU::INCDECSC(const bitCapInt& toMod, bitLenInt inOutStart, bitLenIn
 
     const bitCapIntOcl lengthPower = pow2Ocl(length);
     const bitCapIntOcl lengthMask = lengthPower - 1U;
-    const bitCapIntOcl toModOcl = (bitCapIntOcl)toMod & lengthMask;
+    // (A "toMod" of exactly "lengthPower" leaves the register as it is, but carries.)
+    const bitCapIntOcl toModOcl =
+        ((bitCapIntOcl)toMod == lengthPower) ? lengthPower : ((bitCapIntOcl)toMod & lengthMask);
 
     if (!toModOcl) {
         return;
@@ -290,7 +294,7 @@ void QEngineCPU::INCDECSC(const bitCapInt& toMod, bitLenInt inOutStart, bitLenIn
     par_for_skip(0, maxQPowerOcl, carryMask, 1U, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
         const bitCapIntOcl otherRes = lcv & otherMask;
         const bitCapIntOcl inOutInt = (lcv & inOutMask) >> inOutStart;
-        const bitCapIntOcl inInt = toModOcl;
+        const bitCapIntOcl inInt = toModOcl & lengthMask;
         const bitCapIntOcl outInt = inOutInt + toModOcl;
         const bitCapIntOcl outRes = (outInt < lengthPower)
             ? ((outInt << inOutStart) | otherRes)
@@ -328,7 +332,9 @@ void QEngineCPU::INCDECSC(
 
     const bitCapIntOcl lengthPower = pow2Ocl(length);
     const bitCapIntOcl lengthMask = lengthPower - 1U;
-    const bitCapIntOcl toModOcl = (bitCapIntOcl)toMod & lengthMask;
+    // (A "toMod" of exactly "lengthPower" leaves the register as it is, but carries.)
+    const bitCapIntOcl toModOcl =
+        ((bitCapIntOcl)toMod == lengthPower) ? lengthPower : ((bitCapIntOcl)toMod & lengthMask);
 
     if (!toModOcl) {
         return;
@@ -348,7 +354,7 @@ void QEngineCPU::INCDECSC(
     par_for_skip(0, maxQPowerOcl, carryMask, 1U, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
         const bitCapIntOcl otherRes = lcv & otherMask;
         const bitCapIntOcl inOutInt = (lcv & inOutMask) >> inOutStart;
-        const bitCapIntOcl inInt = toModOcl;
+        const bitCapIntOcl inInt = toModOcl & lengthMask;
         const bitCapIntOcl outInt = inOutInt + toModOcl;
         const bitCapIntOcl outRes = (outInt < lengthPower)
             ? ((outInt << inOutStart) | otherRes)
@@ -1122,7 +1128,7 @@ bitCapInt QEngineCPU::IndexedSBC(bitLenInt indexStart, bitLenInt indexLength, bi
     const bitCapIntOcl otherMask = (maxQPowerOcl - 1U) & (~(inputMask | outputMask | carryMask));
     const bitCapIntOcl skipPower = pow2Ocl(carryIndex);
 
-    par_for_skip(0, maxQPowerOcl, skipPower, valueLength, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
+    par_for_skip(0, maxQPowerOcl, skipPower, 1, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
         // These are qubits that are not directly involved in the
         // operation. We iterate over all of their possibilities, but their
         // input value matches their output value:
diff --git a/src/qengine/qengine.cpp b/src/qengine/qengine.cpp
index 858f395..5b1f7e6 100644
--- a/src/qengine/qengine.cpp
+++ b/src/qengine/qengine.cpp
@@ -122,7 +122,7 @@ bitCapInt QEngine::ForceM(const std::vector<bitLenInt>& bits, const std::vector<
 
     // Single bit operations are better optimized for this special case:
     if (bits.size() == 1U) {
-        if (ForceM(bits[0U], values.empty() ? false : values[0U], false, doApply)) {
+        if (ForceM(bits[0U], values.empty() ? false : values[0U], !values.empty(), doApply)) {
             return pow2(bits[0U]);
         }
 
@@ -147,7 +147,7 @@ bitCapInt QEngine::ForceM(const std::vector<bitLenInt>& bits, const std::vector<
         }
         real1_f nrmlzr = ProbMask(regMask, result);
         complex nrm = phase / (real1)(std::sqrt((real1_s)nrmlzr));
-        if ((ONE_R1_F - nrmlzr) > FP_NORM_EPSILON) {
+        if (doApply && ((ONE_R1_F - nrmlzr) > FP_NORM_EPSILON)) {
             ApplyM(regMask, (bitCapInt)result, nrm);
         }
 
@@ -175,7 +175,11 @@ bitCapInt QEngine::ForceM(const std::vector<bitLenInt>& bits, const std::vector<
      * vector.
      */
     real1 nrmlzr = ONE_R1;
-    while ((lowerProb < prob) && (lcv < lengthPower)) {
+    if (probArray[0U] > ZERO_R1) {
+        nrmlzr = probArray[0U];
+        result = 0U;
+    }
+    while ((lowerProb < prob) && ((lcv + 1U) < lengthPower)) {
         ++lcv;
         lowerProb += probArray[lcv];
         if (probArray[lcv] > ZERO_R1) {
@@ -183,10 +187,6 @@ bitCapInt QEngine::ForceM(const std::vector<bitLenInt>& bits, const std::vector<
             result = lcv;
         }
     }
-    if (lcv < lengthPower) {
-        nrmlzr = probArray[lcv];
-        result = lcv;
-    }
 
     probArray.reset();
 
diff --git a/src/qengine/state.cpp b/src/qengine/state.cpp
index 0eb31c9..8751196 100644
--- a/src/qengine/state.cpp
+++ b/src/qengine/state.cpp
@@ -12,6 +12,7 @@
 
 #include "qengine_cpu.hpp"
 
+#include <algorithm>
 #include <chrono>
 #include <thread>
 
@@ -1161,10 +1162,9 @@ void QEngineCPU::DecomposeDispose(bitLenInt start, bitLenInt length, QEngineCPUP
     // Note that the extra parentheses mean to init as 0:
     std::unique_ptr<real1[]> remainderStateProb(new real1[remainderPower]());
     std::unique_ptr<real1[]> remainderStateAngle(new real1[remainderPower]());
-    std::unique_ptr<real1[]> partStateProb;
+    std::unique_ptr<real1[]> partStateProb(new real1[partPower]());
     std::unique_ptr<real1[]> partStateAngle;
     if (destination) {
-        partStateProb = std::unique_ptr<real1[]>(new real1[partPower]());
         partStateAngle = std::unique_ptr<real1[]>(new real1[partPower]());
     }
 
@@ -1173,76 +1173,46 @@ void QEngineCPU::DecomposeDispose(bitLenInt start, bitLenInt length, QEngineCPUP
     }
     Finish();
 
-    if (destination) {
-        par_for(0U, remainderPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
-            bitCapIntOcl j = lcv & pow2MaskOcl(start);
-            j |= (lcv ^ j) << length;
-
-            for (bitCapIntOcl k = 0U; k < partPower; ++k) {
-                const complex amp = stateVec->read(j | (k << start));
-                const real1 nrm = norm(amp);
-                remainderStateProb[lcv] += nrm;
-                if (nrm > amplitudeFloor) {
-                    partStateAngle[k] += arg(amp) * nrm;
-                }
-            }
-        });
-        par_for(0U, partPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
-            const bitCapIntOcl startMask = pow2MaskOcl(start);
-            const bitCapIntOcl j = lcv << start;
+    const bitCapIntOcl startMask = pow2MaskOcl(start);
+    const auto fullIndex = [&](const bitCapIntOcl& remainder, const bitCapIntOcl& part) {
+        const bitCapIntOcl low = remainder & startMask;
+        return low | (part << start) | ((remainder ^ low) << length);
+    };
 
-            for (bitCapIntOcl k = 0U; k < remainderPower; ++k) {
-                bitCapIntOcl l = k & startMask;
-                l |= j | ((k ^ l) << length);
-
-                const complex amp = stateVec->read(l);
-                const real1 nrm = norm(amp);
-                partStateProb[lcv] += nrm;
-                if (nrm > amplitudeFloor) {
-                    remainderStateAngle[k] += arg(amp) * nrm;
-                }
-            }
+    par_for(0U, remainderPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
+        for (bitCapIntOcl k = 0U; k < partPower; ++k) {
+            remainderStateProb[lcv] += norm(stateVec->read(fullIndex(lcv, k)));
+        }
+    });
+    par_for(0U, partPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
+        for (bitCapIntOcl k = 0U; k < remainderPower; ++k) {
+            partStateProb[lcv] += norm(stateVec->read(fullIndex(k, lcv)));
+        }
+    });
 
-            const real1 prob = partStateProb[lcv];
-            if (prob > amplitudeFloor) {
-                partStateAngle[lcv] /= prob;
-            }
-        });
-        par_for(0U, remainderPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
-            const real1 prob = remainderStateProb[lcv];
-            if (prob > amplitudeFloor) {
-                remainderStateAngle[lcv] /= prob;
-            }
-        });
-    } else {
-        par_for(0U, remainderPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
-            bitCapIntOcl j = lcv & pow2MaskOcl(start);
-            j |= (lcv ^ j) << length;
+    // Phases are only meaningful relative to each other (and modulo 2 * PI), so take them against the most probable
+    // permutation of each subsystem. (The remainder keeps the global phase.)
+    const bitCapIntOcl remainderRef = (bitCapIntOcl)(std::max_element(remainderStateProb.get(),
+                                                         remainderStateProb.get() + remainderPower) -
+        remainderStateProb.get());
+    const bitCapIntOcl partRef =
+        (bitCapIntOcl)(std::max_element(partStateProb.get(), partStateProb.get() + partPower) - partStateProb.get());
 
-            for (bitCapIntOcl k = 0U; k < partPower; ++k) {
-                remainderStateProb[lcv] += norm(stateVec->read(j | (k << start)));
-            }
-        });
+    const complex refAmp = stateVec->read(fullIndex(remainderRef, partRef));
+    par_for(0U, remainderPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
+        complex overlap = ZERO_CMPLX;
+        for (bitCapIntOcl k = 0U; k < partPower; ++k) {
+            overlap += stateVec->read(fullIndex(lcv, k)) * conj(stateVec->read(fullIndex(remainderRef, k)));
+        }
+        remainderStateAngle[lcv] = arg(overlap * refAmp);
+    });
+    if (destination) {
         par_for(0U, partPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
-            const bitCapIntOcl startMask = pow2MaskOcl(start);
-            const bitCapIntOcl j = lcv << start;
-
+            complex overlap = ZERO_CMPLX;
             for (bitCapIntOcl k = 0U; k < remainderPower; ++k) {
-                bitCapIntOcl l = k & startMask;
-                l |= j | ((k ^ l) << length);
-
-                const complex amp = stateVec->read(l);
-                const real1 nrm = norm(amp);
-                if (nrm > amplitudeFloor) {
-                    remainderStateAngle[k] += arg(amp) * nrm;
-                }
-            }
-        });
-        par_for(0U, remainderPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
-            const real1 prob = remainderStateProb[lcv];
-            if (prob > amplitudeFloor) {
-                remainderStateAngle[lcv] /= prob;
+                overlap += stateVec->read(fullIndex(k, lcv)) * conj(stateVec->read(fullIndex(k, partRef)));
             }
+            partStateAngle[lcv] = arg(overlap);
         });
     }
 
@@ -1254,9 +1224,9 @@ void QEngineCPU::DecomposeDispose(bitLenInt start, bitLenInt length, QEngineCPUP
                 lcv, std::polar((real1)std::sqrt((real1_s)partStateProb[lcv]), partStateAngle[lcv]));
         });
 
-        partStateProb.reset();
         partStateAngle.reset();
     }
+    partStateProb.reset();
 
     SetQubitCount(nLength);
 
diff --git a/src/qinterface/qinterface.cpp b/src/qinterface/qinterface.cpp
index 8b7f112..1d8ce3c 100644
--- a/src/qinterface/qinterface.cpp
+++ b/src/qinterface/qinterface.cpp
@@ -255,7 +255,16 @@ bitCapInt QInterface::ForceM(const std::vector<bitLenInt>& bits, const std::vect
     std::vector<bitCapInt> qPowers(bits.size());
     std::transform(bits.begin(), bits.end(), qPowers.begin(), pow2);
 
-    return MultiShotMeasureMask(qPowers, 1).begin()->first;
+    // Deposit the (compact) sample back into the positions of the measured bits.
+    const bitCapInt sample = MultiShotMeasureMask(qPowers, 1).begin()->first;
+    bitCapInt result = ZERO_BCI;
+    for (size_t bit = 0U; bit < bits.size(); ++bit) {
+        if (bi_and_1(sample >> (bitLenInt)bit)) {
+            bi_or_ip(&result, qPowers[bit]);
+        }
+    }
+
+    return result;
 }
 
 /// Returns probability of permutation of the register
@@ -267,7 +276,7 @@ real1_f QInterface::ProbReg(bitLenInt start, bitLenInt length, const bitCapInt&
     real1 prob = ZERO_R1;
     for (bitCapIntOcl lcv = 0U; lcv < maxLcv; ++lcv) {
         bitCapIntOcl i = lcv & startMask;
-        i |= ((lcv ^ i) | p) << length;
+        i |= ((lcv ^ i) << length) | (p << start);
         prob += ProbAll(i);
     }
 
-- 
2.43.0


From 2103ab84858b5bc4f7ff6c24ad45fdd66403f936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:24 +0000
Subject: [PATCH 06/49] fix: multi-bit ADC/IADC/CADC/CIADC propagate the carry,
 and the gate-level INCDECC finds its carry qubit

---
 src/qinterface/arithmetic.cpp | 84 +++++++++--------------------------
 1 file changed, 21 insertions(+), 63 deletions(-)

diff --git a/src/qinterface/arithmetic.cpp b/src/qinterface/arithmetic.cpp
index e80f5b6..78d02ed 100644
--- a/src/qinterface/arithmetic.cpp
+++ b/src/qinterface/arithmetic.cpp
@@ -68,11 +68,16 @@ void QInterface::INCDECC(const bitCapInt& toAdd, bitLenInt start, bitLenInt leng
         }
         X(start + i);
         for (bitLenInt j = 0U; j < (length - i); ++j) {
-            const bitLenInt target = start + (((i + j + 1U) == length) ? carryIndex : ((i + j + 1U) % length));
+            const bitLenInt target = ((i + j + 1U) == length) ? carryIndex : (start + i + j + 1U);
             MACInvert(
                 std::vector<bitLenInt>(bits.begin() + i, bits.begin() + i + j + 1U), ONE_CMPLX, ONE_CMPLX, target);
         }
     }
+
+    // Adding "pow2(length)" leaves the register as it is, but carries.
+    if (bi_and_1(toAdd >> length) != 0) {
+        X(carryIndex);
+    }
 }
 
 /** Add integer (without sign, with controls) */
@@ -329,86 +334,39 @@ void QInterface::CIFullAdd(const std::vector<bitLenInt>& controls, bitLenInt inp
 
 void QInterface::ADC(bitLenInt input1, bitLenInt input2, bitLenInt output, bitLenInt length, bitLenInt carry)
 {
-    if (!length) {
-        return;
-    }
-
-    FullAdd(input1, input2, carry, output);
-
-    if (length == 1U) {
-        return Swap(carry, output);
-    }
-
-    // Otherwise, length > 1.
-    const bitLenInt end = length - 1U;
-    for (bitLenInt i = 1U; i < end; ++i) {
-        FullAdd(input1 + i, input2 + i, output + i, output + i + 1U);
+    for (bitLenInt i = 0U; i < length; ++i) {
+        // The sum bit lands in "carry," and the carry out lands in "output + i."
+        FullAdd(input1 + i, input2 + i, carry, output + i);
+        Swap(carry, output + i);
     }
-    FullAdd(input1 + end, input2 + end, output + end, carry);
 }
 
 void QInterface::IADC(bitLenInt input1, bitLenInt input2, bitLenInt output, bitLenInt length, bitLenInt carry)
 {
-    if (!length) {
-        return;
+    for (bitLenInt i = length; i > 0U; --i) {
+        const bitLenInt b = i - 1U;
+        Swap(carry, output + b);
+        IFullAdd(input1 + b, input2 + b, carry, output + b);
     }
-
-    if (length == 1U) {
-        Swap(carry, output);
-
-        return IFullAdd(input1, input2, carry, output);
-    }
-
-    // Otherwise, length > 1.
-    const bitLenInt end = length - 1U;
-    IFullAdd(input1 + end, input2 + end, output + end, carry);
-    for (bitLenInt i = (end - 1); i > 0U; i--) {
-        IFullAdd(input1 + i, input2 + i, output + i, output + i + 1U);
-    }
-    IFullAdd(input1, input2, carry, output);
 }
 
 void QInterface::CADC(const std::vector<bitLenInt>& controls, bitLenInt input1, bitLenInt input2, bitLenInt output,
     bitLenInt length, bitLenInt carry)
 {
-    if (!length) {
-        return;
-    }
-
-    CFullAdd(controls, input1, input2, carry, output);
-
-    if (length == 1) {
-        return CSwap(controls, carry, output);
-    }
-
-    // Otherwise, length > 1.
-    const bitLenInt end = length - 1U;
-    for (bitLenInt i = 1; i < end; ++i) {
-        CFullAdd(controls, input1 + i, input2 + i, output + i, output + i + 1U);
+    for (bitLenInt i = 0U; i < length; ++i) {
+        CFullAdd(controls, input1 + i, input2 + i, carry, output + i);
+        CSwap(controls, carry, output + i);
     }
-    CFullAdd(controls, input1 + end, input2 + end, output + end, carry);
 }
 
 void QInterface::CIADC(const std::vector<bitLenInt>& controls, bitLenInt input1, bitLenInt input2, bitLenInt output,
     bitLenInt length, bitLenInt carry)
 {
-    if (!length) {
-        return;
-    }
-
-    if (length == 1U) {
-        CSwap(controls, carry, output);
-
-        return CIFullAdd(controls, input1, input2, carry, output);
-    }
-
-    // Otherwise, length > 1.
-    const bitLenInt end = length - 1U;
-    CIFullAdd(controls, input1 + end, input2 + end, output + end, carry);
-    for (bitLenInt i = (end - 1); i > 0U; i--) {
-        CIFullAdd(controls, input1 + i, input2 + i, output + i, output + i + 1U);
+    for (bitLenInt i = length; i > 0U; --i) {
+        const bitLenInt b = i - 1U;
+        CSwap(controls, carry, output + b);
+        CIFullAdd(controls, input1 + b, input2 + b, carry, output + b);
     }
-    CIFullAdd(controls, input1, input2, carry, output);
 }
 
 } // namespace Qrack
-- 
2.43.0


From 74899a75b35ee630cd24a26422b3b4fc513f1e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:32 +0000
Subject: [PATCH 07/49] fix: QPager constructor honours the initial permutation
 and initialises its flags

---
 src/qpager.cpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/qpager.cpp b/src/qpager.cpp
index d774c97..b6def0f 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -51,19 +51,14 @@ QPager::QPager(std::vector<QInterfaceEngine> eng, bitLenInt qBitCount, const bit
         return;
     }
 
-    const bitCapInt initState = maxQPower + ONE_BCI;
-    const bitCapIntOcl initStateOcl = (bitCapIntOcl)initState;
-    bitCapIntOcl pagePerm = basePageMaxQPower;
+    const bitCapIntOcl initState = (bitCapIntOcl)_initState & (maxQPowerOcl - 1U);
+    const bitCapIntOcl initPage = initState / basePageMaxQPower;
     for (bitCapIntOcl i = 0U; i < basePageCount; ++i) {
-        if (bi_compare(initState, pagePerm) < 0) {
+        qPages.push_back(MakeEngine(baseQubitsPerPage, i));
+        if (i == initPage) {
             // Init state is in this page.
-            qPages.push_back(MakeEngine(baseQubitsPerPage, i));
-            qPages.back()->SetPermutation(initStateOcl - (pagePerm - basePageMaxQPower));
-        } else {
-            // Init state is in a higher page.
-            qPages.push_back(MakeEngine(baseQubitsPerPage, i));
+            qPages.back()->SetPermutation(initState & (basePageMaxQPower - 1U));
         }
-        pagePerm += basePageMaxQPower;
     }
 }
 
@@ -73,6 +68,7 @@ QPager::QPager(QEnginePtr enginePtr, std::vector<QInterfaceEngine> eng, bitLenIn
     bitLenInt qubitThreshold, real1_f sep_thresh)
     : QEngine(qBitCount, rgp, false, false, useHostMem, useHardwareRNG, norm_thresh)
     , isSparse(useSparseStateVec)
+    , useTGadget(true)
     , maxPageSetting(-1)
     , maxPageQubits(-1)
     , thresholdQubitsPerPage(qubitThreshold)
-- 
2.43.0


From c6c05d10bbe0b6dcbd2f77e3be28fe2f2f7b1154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:32 +0000
Subject: [PATCH 08/49] fix: QEngineCPU::Copy keeps the running norm

---
 src/qengine/utility.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qengine/utility.cpp b/src/qengine/utility.cpp
index de8db83..ff4659d 100644
--- a/src/qengine/utility.cpp
+++ b/src/qengine/utility.cpp
@@ -43,8 +43,11 @@ QEnginePtr QEngineCPU::CloneEmpty()
 
 QInterfacePtr QEngineCPU::Copy()
 {
+    Finish();
+
     QEngineCPUPtr clone = std::dynamic_pointer_cast<QEngineCPU>(CloneEmpty());
     clone->stateVec = stateVec;
+    clone->runningNorm = runningNorm;
 
     return clone;
 }
-- 
2.43.0


From 141599031a401cfb2e8d61787c0ede039f88e32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:32 +0000
Subject: [PATCH 09/49] fix: QInterface::TryDecompose works on clones, and
 sampled permutations are not truncated to 32 bits

---
 src/qinterface/qinterface.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qinterface/qinterface.cpp b/src/qinterface/qinterface.cpp
index 1d8ce3c..6289599 100644
--- a/src/qinterface/qinterface.cpp
+++ b/src/qinterface/qinterface.cpp
@@ -838,7 +838,7 @@ void QInterface::MultiShotMeasureMask(
     }
 
     par_for(0U, shots, [&](const bitCapIntOcl& shot, const unsigned& cpu) {
-        shotsArray[shot] = (unsigned)(bitCapIntOcl)SampleClone(qPowers);
+        shotsArray[shot] = (unsigned long long)(bitCapIntOcl)SampleClone(qPowers);
     });
 }
 
@@ -846,9 +846,9 @@ bool QInterface::TryDecompose(bitLenInt start, QInterfacePtr dest, real1_f error
 {
     Finish();
 
-    QInterfacePtr orig = Copy();
+    QInterfacePtr orig = Clone();
     orig->Decompose(start, dest);
-    QInterfacePtr output = orig->Copy();
+    QInterfacePtr output = orig->Clone();
     orig->Compose(dest, start);
 
     const bool didSeparate = ApproxCompare(orig, error_tol);
-- 
2.43.0


From f073086842ed1a4f4b91bc7d6700d6e165cea32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:32 +0000
Subject: [PATCH 10/49] fix: out-of-place modular multiplication for moduli
 that are not powers of two

---
 src/qinterface/arithmetic.cpp | 141 ++++++++++------------------------
 1 file changed, 42 insertions(+), 99 deletions(-)

diff --git a/src/qinterface/arithmetic.cpp b/src/qinterface/arithmetic.cpp
index 78d02ed..c45e4bf 100644
--- a/src/qinterface/arithmetic.cpp
+++ b/src/qinterface/arithmetic.cpp
@@ -126,42 +126,40 @@ void QInterface::CINC(const bitCapInt& toAdd, bitLenInt start, bitLenInt length,
     }
 }
 
+/// Exclusive-or of the output register with the (modulo N) product of the input register, by truth table
+static void CXorMulModN(QInterface* qReg, const bitCapInt& toMul, const bitCapInt& modN, bitLenInt inStart,
+    bitLenInt outStart, bitLenInt length, const std::vector<bitLenInt>& controls)
+{
+    std::vector<bitLenInt> lControls(controls);
+    for (bitLenInt i = 0U; i < length; ++i) {
+        lControls.push_back(inStart + i);
+    }
+    const bitCapInt controlPerm = pow2Mask(controls.size());
+    const bitCapInt maxIn = pow2(length);
+    bitCapInt partMul;
+    bi_div_mod(toMul, modN, nullptr, &partMul);
+    bitCapInt out = ZERO_BCI;
+    for (bitCapInt in = ONE_BCI; bi_compare(in, maxIn) < 0; bi_increment(&in, 1U)) {
+        bi_add_ip(&out, partMul);
+        if (bi_compare(out, modN) >= 0) {
+            bi_sub_ip(&out, modN);
+        }
+        const bitCapInt perm = (in << controls.size()) | controlPerm;
+        for (bitLenInt i = 0U; i < length; ++i) {
+            if (bi_and_1(out >> i)) {
+                qReg->UCInvert(lControls, ONE_CMPLX, ONE_CMPLX, outStart + i, perm);
+            }
+        }
+    }
+}
+
 /**
  * Multiplication modulo N by integer, (out of place)
  */
 void QInterface::MULModNOut(
     const bitCapInt& toMul, const bitCapInt& modN, bitLenInt inStart, bitLenInt outStart, bitLenInt length)
 {
-    const bool isPow2 = isPowerOfTwo(modN);
-    const bitLenInt oLength = isPow2 ? log2(modN) : (log2(modN) + 1U);
-    std::vector<bitLenInt> controls(1);
-    for (bitLenInt i = 0U; i < length; ++i) {
-        controls[0] = inStart + i;
-        bitCapInt partMul;
-        bi_div_mod(toMul * pow2(i), modN, nullptr, &partMul);
-        if (bi_compare_0(partMul) == 0) {
-            continue;
-        }
-        CINC(partMul, outStart, oLength, controls);
-    }
-
-    if (isPow2) {
-        return;
-    }
-
-    bitCapInt diffPow;
-    bi_div_mod(pow2(length), modN, &diffPow, nullptr);
-    const bitLenInt lDiff = log2(diffPow);
-    controls[0] = inStart + length - (lDiff + 1U);
-    for (bitCapInt i = ZERO_BCI; bi_compare(i, diffPow) < 0; bi_increment(&i, 1U)) {
-        DEC(modN, inStart, length);
-        X(controls[0]);
-        CDEC(modN, outStart, oLength, controls);
-        X(controls[0]);
-    }
-    for (bitCapInt i = ZERO_BCI; bi_compare(i, diffPow) < 0; bi_increment(&i, 1U)) {
-        INC(modN, inStart, length);
-    }
+    CMULModNOut(toMul, modN, inStart, outStart, length, std::vector<bitLenInt>());
 }
 
 /**
@@ -170,34 +168,7 @@ void QInterface::MULModNOut(
 void QInterface::IMULModNOut(
     const bitCapInt& toMul, const bitCapInt& modN, bitLenInt inStart, bitLenInt outStart, bitLenInt length)
 {
-    const bool isPow2 = isPowerOfTwo(modN);
-    const bitLenInt oLength = isPow2 ? log2(modN) : (log2(modN) + 1U);
-    bitCapInt diffPow;
-    bi_div_mod(pow2(length), modN, &diffPow, nullptr);
-    const bitLenInt lDiff = log2(diffPow);
-    std::vector<bitLenInt> controls{ (bitLenInt)(inStart + length - (lDiff + 1U)) };
-
-    if (!isPow2) {
-        for (bitCapInt i = ZERO_BCI; bi_compare(i, diffPow) < 0; bi_increment(&i, 1U)) {
-            DEC(modN, inStart, length);
-        }
-        for (bitCapInt i = ZERO_BCI; bi_compare(i, diffPow) < 0; bi_increment(&i, 1U)) {
-            X(controls[0]);
-            CINC(modN, outStart, oLength, controls);
-            X(controls[0]);
-            INC(modN, inStart, length);
-        }
-    }
-
-    for (bitLenInt i = 0U; i < length; ++i) {
-        controls[0] = inStart + i;
-        bitCapInt partMul;
-        bi_div_mod(toMul * pow2(i), modN, nullptr, &partMul);
-        if (bi_compare_0(partMul) == 0) {
-            continue;
-        }
-        CDEC(partMul, outStart, oLength, controls);
-    }
+    CIMULModNOut(toMul, modN, inStart, outStart, length, std::vector<bitLenInt>());
 }
 
 /**
@@ -206,10 +177,14 @@ void QInterface::IMULModNOut(
 void QInterface::CMULModNOut(const bitCapInt& toMul, const bitCapInt& modN, bitLenInt inStart, bitLenInt outStart,
     bitLenInt length, const std::vector<bitLenInt>& controls)
 {
-    const bool isPow2 = isPowerOfTwo(modN);
-    const bitLenInt oLength = isPow2 ? log2(modN) : (log2(modN) + 1U);
-    std::vector<bitLenInt> lControls(controls.size() + 1U);
-    std::copy(controls.begin(), controls.end(), lControls.begin());
+    if (!isPowerOfTwo(modN)) {
+        // (Sums of partial products don't reduce modulo N, in place.)
+        return CXorMulModN(this, toMul, modN, inStart, outStart, length, controls);
+    }
+
+    const bitLenInt oLength = log2(modN);
+    std::vector<bitLenInt> lControls(controls);
+    lControls.push_back(inStart);
     for (bitLenInt i = 0U; i < length; ++i) {
         lControls[controls.size()] = inStart + i;
         bitCapInt partMul;
@@ -219,24 +194,6 @@ void QInterface::CMULModNOut(const bitCapInt& toMul, const bitCapInt& modN, bitL
         }
         CINC(partMul, outStart, oLength, lControls);
     }
-
-    if (isPow2) {
-        return;
-    }
-
-    bitCapInt diffPow;
-    bi_div_mod(pow2(length), modN, &diffPow, nullptr);
-    const bitLenInt lDiff = log2(diffPow);
-    lControls[controls.size()] = inStart + length - (lDiff + 1U);
-    for (bitCapInt i = ZERO_BCI; bi_compare(i, diffPow) < 0; bi_increment(&i, 1U)) {
-        CDEC(modN, inStart, length, controls);
-        X(lControls[controls.size()]);
-        CDEC(modN, outStart, oLength, lControls);
-        X(lControls[controls.size()]);
-    }
-    for (bitCapInt i = ZERO_BCI; bi_compare(i, diffPow) < 0; bi_increment(&i, 1U)) {
-        CINC(modN, inStart, length, controls);
-    }
 }
 
 /**
@@ -245,27 +202,13 @@ void QInterface::CMULModNOut(const bitCapInt& toMul, const bitCapInt& modN, bitL
 void QInterface::CIMULModNOut(const bitCapInt& toMul, const bitCapInt& modN, bitLenInt inStart, bitLenInt outStart,
     bitLenInt length, const std::vector<bitLenInt>& controls)
 {
-    const bool isPow2 = isPowerOfTwo(modN);
-    const bitLenInt oLength = isPow2 ? log2(modN) : (log2(modN) + 1U);
-    std::vector<bitLenInt> lControls(controls.size() + 1U);
-    std::copy(controls.begin(), controls.end(), lControls.begin());
-    bitCapInt diffPow;
-    bi_div_mod(pow2(length), modN, &diffPow, nullptr);
-    const bitLenInt lDiff = log2(diffPow);
-    lControls[controls.size()] = inStart + length - (lDiff + 1U);
-
-    if (!isPow2) {
-        for (bitCapInt i = ZERO_BCI; bi_compare(i, diffPow) < 0; bi_increment(&i, 1U)) {
-            CDEC(modN, inStart, length, controls);
-        }
-        for (bitCapInt i = ZERO_BCI; bi_compare(i, diffPow) < 0; bi_increment(&i, 1U)) {
-            X(lControls[controls.size()]);
-            CINC(modN, outStart, oLength, lControls);
-            X(lControls[controls.size()]);
-            CINC(modN, inStart, length, controls);
-        }
+    if (!isPowerOfTwo(modN)) {
+        return CXorMulModN(this, toMul, modN, inStart, outStart, length, controls);
     }
 
+    const bitLenInt oLength = log2(modN);
+    std::vector<bitLenInt> lControls(controls);
+    lControls.push_back(inStart);
     for (bitLenInt i = 0U; i < length; ++i) {
         lControls[controls.size()] = inStart + i;
         bitCapInt partMul;
-- 
2.43.0


From fd39f7f9f9080eef3da1e2e6d28cee333fb15b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:32 +0000
Subject: [PATCH 11/49] fix: default FSim phase on |01>/|10>

---
 include/qinterface.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qinterface.hpp b/include/qinterface.hpp
index 6ed63e5..24a291e 100644
--- a/include/qinterface.hpp
+++ b/include/qinterface.hpp
@@ -2412,7 +2412,7 @@ public:
         H(qubit1);
         H(qubit2);
         CNOT(qubit1, qubit2);
-        RZ(2 * theta, qubit2);
+        RZ(theta, qubit2);
         CNOT(qubit1, qubit2);
         H(qubit2);
         H(qubit1);
@@ -2423,7 +2423,7 @@ public:
         H(qubit1);
         H(qubit2);
         CNOT(qubit1, qubit2);
-        RZ(2 * theta, qubit2);
+        RZ(theta, qubit2);
         CNOT(qubit1, qubit2);
         H(qubit2);
         H(qubit1);
-- 
2.43.0


From d04bfc944cdaa80083b499a95d673cc7a9ce16ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:32 +0000
Subject: [PATCH 12/49] fix: QEngineShard::CommutePhase visits every buffer

---
 src/qengineshard.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qengineshard.cpp b/src/qengineshard.cpp
index a60f452..fa88a3f 100644
--- a/src/qengineshard.cpp
+++ b/src/qengineshard.cpp
@@ -283,7 +283,7 @@ void QEngineShard::CommutePhase(const complex& topLeft, const complex& bottomRig
     for (const auto& phaseShard : targetOfShards) {
         const PhaseShardPtr& buffer = phaseShard.second;
         if (!buffer->isInvert) {
-            return;
+            continue;
         }
 
         buffer->cmplxDiff *= topLeft / bottomRight;
@@ -293,7 +293,7 @@ void QEngineShard::CommutePhase(const complex& topLeft, const complex& bottomRig
     for (const auto& phaseShard : antiTargetOfShards) {
         const PhaseShardPtr& buffer = phaseShard.second;
         if (!buffer->isInvert) {
-            return;
+            continue;
         }
 
         buffer->cmplxDiff *= bottomRight / topLeft;
-- 
2.43.0


From 3df5c04af21a08baa82a7239bc8d098684bbce54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:32 +0000
Subject: [PATCH 13/49] fix: QUnit cache invalidation, buffered phases and
 qubit mapping

---
 include/qunit.hpp |  11 ++-
 src/qunit.cpp     | 222 +++++++++++++++++++++++++---------------------
 2 files changed, 129 insertions(+), 104 deletions(-)

diff --git a/include/qunit.hpp b/include/qunit.hpp
index ee3be55..fb41a97 100644
--- a/include/qunit.hpp
+++ b/include/qunit.hpp
@@ -140,12 +140,14 @@ public:
 
     virtual real1_f ProbRdm(bitLenInt qubit)
     {
+        ToPermBasisProb(qubit);
+
         const QEngineShard& shard = shards[qubit];
         if (!shard.unit) {
             return Prob(qubit);
         }
 
-        return shard.unit->ProbRdm(qubit);
+        return shard.unit->ProbRdm(shard.mapped);
     }
     virtual real1_f CProbRdm(bitLenInt control, bitLenInt target)
     {
@@ -177,6 +179,9 @@ public:
 
         EntangleAll();
         shards[0U].unit->SetAmplitude(perm, amp);
+        for (QEngineShard& shard : shards) {
+            shard.MakeDirty();
+        }
     }
     virtual void SetPermutation(const bitCapInt& perm, const complex& phaseFac = CMPLX_DEFAULT_ARG);
     using QInterface::Compose;
@@ -453,6 +458,8 @@ public:
     virtual real1_f ProbAll(const bitCapInt& perm) { return clampProb((real1_f)norm(GetAmplitudeOrProb(perm, true))); }
     virtual real1_f ProbAllRdm(bool roundRz, const bitCapInt& perm)
     {
+        ToPermBasisProb();
+
         if (shards[0U].unit && (shards[0U].unit->GetQubitCount() == qubitCount)) {
             OrderContiguous(shards[0U].unit);
             return shards[0U].unit->ProbAllRdm(roundRz, perm);
@@ -605,6 +612,7 @@ protected:
         shard.amp1 = -shard.amp1;
     }
     virtual real1_f ProbBase(bitLenInt qubit);
+    virtual void ChooseBasis1Qb(bitLenInt qubit);
 
     virtual bool TrySeparateClifford(bitLenInt qubit);
 
@@ -650,6 +658,7 @@ protected:
         ThrowIfQbIdArrayIsBad(bits, qubitCount,
             "QUnit::ExpectationFactorized parameter qubits vector values must be within allocated qubit bounds!");
 
+        ToPermBasisProb();
         if (shards[0U].unit && (shards[0U].unit->GetQubitCount() == qubitCount)) {
             OrderContiguous(shards[0U].unit);
             return isExp  ? isFloat
diff --git a/src/qunit.cpp b/src/qunit.cpp
index a77d95f..ccc0a41 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -221,7 +221,7 @@ void QUnit::GetQuantumStateOrProbs(complex* outputState, real1* outputProbs)
         OrderContiguous(shards[0U].unit);
         thisCopy = this;
     } else {
-        thisCopyShared = std::dynamic_pointer_cast<QUnit>(Copy());
+        thisCopyShared = std::dynamic_pointer_cast<QUnit>(Clone());
         thisCopy = thisCopyShared.get();
         thisCopy->EntangleAll();
     }
@@ -283,8 +283,9 @@ bool QUnit::Detach(bitLenInt start, bitLenInt length, QUnitPtr dest, bool isTry,
         throw std::invalid_argument("QUnit::Detach range is out-of-bounds!");
     }
 
-    for (bitLenInt i = 0U; i < length; ++i) {
-        RevertBasis2Qb(start + i);
+    // Erasing shards moves the remaining ones, so no phase buffer may keep a pointer to any of them.
+    for (bitLenInt i = 0U; i < qubitCount; ++i) {
+        RevertBasis2Qb(i);
     }
 
     // Move "emulated" bits immediately into the destination, which is initialized.
@@ -307,12 +308,14 @@ bool QUnit::Detach(bitLenInt start, bitLenInt length, QUnitPtr dest, bool isTry,
         }
     }
 
-    const QUnitPtr copy{ isTry ? std::dynamic_pointer_cast<QUnit>(Copy()) : nullptr };
+    const QUnitPtr copy{ isTry ? std::dynamic_pointer_cast<QUnit>(Clone()) : nullptr };
 
     // After ordering all subunits contiguously, since the top level mapping is a contiguous array, all subunit sets are
     // also contiguous. From the lowest index bits, they are mapped simply for the length count of bits involved in the
     // entire subunit.
     std::map<QInterfacePtr, bitLenInt> decomposedUnits;
+    // (The "mapped" field of a decomposed shard is reset, so keep the original offset in the original unit.)
+    std::map<QInterfacePtr, bitLenInt> decomposedOffsets;
     for (bitLenInt i = 0U; i < length; ++i) {
         QEngineShard& shard = shards[start + i];
         QInterfacePtr unit = shard.unit;
@@ -323,6 +326,7 @@ bool QUnit::Detach(bitLenInt start, bitLenInt length, QUnitPtr dest, bool isTry,
 
         if (decomposedUnits.find(unit) == decomposedUnits.end()) {
             decomposedUnits[unit] = start + i;
+            decomposedOffsets[unit] = shard.mapped;
             const bitLenInt subLen = subunits[unit];
             const bitLenInt origLen = unit->GetQubitCount();
             if (subLen != origLen) {
@@ -354,7 +358,7 @@ bool QUnit::Detach(bitLenInt start, bitLenInt length, QUnitPtr dest, bool isTry,
                 }
 
                 if (subLen == (origLen - 1U)) {
-                    bitLenInt mapped = shards[decomposedUnits[unit]].mapped;
+                    bitLenInt mapped = decomposedOffsets[unit];
                     if (!mapped) {
                         mapped += subLen;
                     } else {
@@ -392,7 +396,7 @@ bool QUnit::Detach(bitLenInt start, bitLenInt length, QUnitPtr dest, bool isTry,
     for (auto&& shard : shards) {
         const auto subunit = subunits.find(shard.unit);
         if (subunit != subunits.end() &&
-            shard.mapped >= (shards[decomposedUnits[shard.unit]].mapped + subunit->second)) {
+            shard.mapped >= (decomposedOffsets[shard.unit] + subunit->second)) {
             shard.mapped -= subunit->second;
         }
     }
@@ -660,8 +664,10 @@ bool QUnit::TrySeparateClifford(bitLenInt qubit)
     shard.unit = sepUnit;
 
     ProbBase(qubit);
+    ChooseBasis1Qb(qubit);
     if (isPair) {
         ProbBase(oQubit);
+        ChooseBasis1Qb(oQubit);
     }
 
     return true;
@@ -678,6 +684,7 @@ bool QUnit::TrySeparate(bitLenInt qubit)
     if (shard.GetQubitCount() == 1U) {
         if (shard.unit) {
             ProbBase(qubit);
+            ChooseBasis1Qb(qubit);
         }
         return true;
     }
@@ -947,39 +954,55 @@ bool QUnit::CheckBitsPlus(bitLenInt qubitIndex, bitLenInt length)
     return isHBasis;
 }
 
+void QUnit::ChooseBasis1Qb(bitLenInt qubit)
+{
+    QEngineShard& shard = shards[qubit];
+
+    if (shard.unit) {
+        return;
+    }
+
+    RevertBasis1Qb(qubit);
+
+    complex amps[2U]{ shard.amp0, shard.amp1 };
+
+    if (IS_AMP_0(amps[0U] - amps[1U])) {
+        logFidelity += (double)log(clampProb(ONE_R1_F - norm(amps[0U] - amps[1U])));
+        shard.pauliBasis = PauliX;
+        amps[0U] = amps[0U] / abs(amps[0U]);
+        amps[1U] = ZERO_CMPLX;
+    } else if (IS_AMP_0(amps[0U] + amps[1U])) {
+        logFidelity += (double)log(clampProb(ONE_R1_F - norm(amps[0U] + amps[1U])));
+        shard.pauliBasis = PauliX;
+        amps[1U] = amps[0U] / abs(amps[0U]);
+        amps[0U] = ZERO_CMPLX;
+    } else if (IS_AMP_0((I_CMPLX * amps[0U]) - amps[1U])) {
+        logFidelity += (double)log(clampProb(ONE_R1_F - norm((I_CMPLX * amps[0U]) - amps[1U])));
+        shard.pauliBasis = PauliY;
+        amps[0U] = amps[0U] / abs(amps[0U]);
+        amps[1U] = ZERO_CMPLX;
+    } else if (IS_AMP_0((I_CMPLX * amps[0U]) + amps[1U])) {
+        logFidelity += (double)log(clampProb(ONE_R1_F - norm((I_CMPLX * amps[0U]) + amps[1U])));
+        shard.pauliBasis = PauliY;
+        amps[1U] = amps[0U] / abs(amps[0U]);
+        amps[0U] = ZERO_CMPLX;
+    }
+
+    CheckFidelity();
+
+    shard.amp0 = amps[0U];
+    shard.amp1 = amps[1U];
+}
+
 real1_f QUnit::ProbBase(bitLenInt qubit)
 {
     QEngineShard& shard = shards[qubit];
 
     if (shard.unit && (shard.unit->GetQubitCount() == 1U)) {
-        RevertBasis1Qb(qubit);
+        // (Callers rely on the Pauli basis of the shard not to change, here.)
         complex amps[2U];
         shard.unit->GetQuantumState(amps);
 
-        if (IS_AMP_0(amps[0U] - amps[1U])) {
-            logFidelity += (double)log(clampProb(ONE_R1_F - norm(amps[0U] - amps[1U])));
-            shard.pauliBasis = PauliX;
-            amps[0U] = amps[0U] / abs(amps[0U]);
-            amps[1U] = ZERO_CMPLX;
-        } else if (IS_AMP_0(amps[0U] + amps[1U])) {
-            logFidelity += (double)log(clampProb(ONE_R1_F - norm(amps[0U] + amps[1U])));
-            shard.pauliBasis = PauliX;
-            amps[1U] = amps[0U] / abs(amps[0U]);
-            amps[0U] = ZERO_CMPLX;
-        } else if (IS_AMP_0((I_CMPLX * amps[0U]) - amps[1U])) {
-            logFidelity += (double)log(clampProb(ONE_R1_F - norm((I_CMPLX * amps[0U]) - amps[1U])));
-            shard.pauliBasis = PauliY;
-            amps[0U] = amps[0U] / abs(amps[0U]);
-            amps[1U] = ZERO_CMPLX;
-        } else if (IS_AMP_0((I_CMPLX * amps[0U]) + amps[1U])) {
-            logFidelity += (double)log(clampProb(ONE_R1_F - norm((I_CMPLX * amps[0U]) + amps[1U])));
-            shard.pauliBasis = PauliY;
-            amps[1U] = amps[0U] / abs(amps[0U]);
-            amps[0U] = ZERO_CMPLX;
-        }
-
-        CheckFidelity();
-
         shard.amp0 = amps[0U];
         shard.amp1 = amps[1U];
         shard.isProbDirty = false;
@@ -1265,7 +1288,10 @@ void QUnit::CUniformParityRZ(const std::vector<bitLenInt>& cControls, const bitC
         if (controls.empty()) {
             return Phase(phaseFac, phaseFac, 0U);
         } else {
-            return MCPhase(controls, phaseFac, phaseFac, 0U);
+            // The mask is in an eigenstate, so this is a phase on the controls, alone.
+            const bitLenInt target = controls.back();
+            controls.pop_back();
+            return MCPhase(controls, ONE_CMPLX, phaseFac, target);
         }
     }
 
@@ -1287,28 +1313,19 @@ void QUnit::CUniformParityRZ(const std::vector<bitLenInt>& cControls, const bitC
         }
     }
 
-    for (const bitLenInt& eIndex : eIndices) {
-        shards[eIndex].isPhaseDirty = true;
-    }
-
-    QInterfacePtr unit = Entangle(eIndices);
+    std::vector<bitLenInt> allIndices(eIndices);
+    allIndices.insert(allIndices.end(), controls.begin(), controls.end());
+    QInterfacePtr unit = Entangle(allIndices);
 
     bitCapInt mappedMask = ZERO_BCI;
     for (const bitLenInt& eIndex : eIndices) {
         bi_or_ip(&mappedMask, pow2(shards[eIndex].mapped));
+        shards[eIndex].isPhaseDirty = true;
     }
 
     if (controls.empty()) {
         std::dynamic_pointer_cast<QParity>(unit)->UniformParityRZ(mappedMask, flipResult ? -angle : angle);
     } else {
-        std::vector<bitLenInt*> ebits(controls.size());
-        for (size_t i = 0U; i < controls.size(); ++i) {
-            ebits[i] = &controls[i];
-        }
-
-        Entangle(ebits);
-        unit = Entangle({ controls[0U], eIndices[0U] });
-
         std::vector<bitLenInt> controlsMapped(controls.size());
         for (size_t i = 0U; i < controls.size(); ++i) {
             QEngineShard& cShard = shards[controls[i]];
@@ -1381,12 +1398,9 @@ bool QUnit::ForceM(bitLenInt qubit, bool res, bool doForce, bool doApply)
         throw std::invalid_argument("QUnit::ForceM target parameter must be within allocated qubit bounds!");
     }
 
-    if (doApply) {
-        RevertBasis1Qb(qubit);
-        RevertBasis2Qb(qubit, ONLY_INVERT, ONLY_TARGETS);
-    } else {
-        ToPermBasisMeasure(qubit);
-    }
+    // (Phase buffers must be kept, whether or not the measurement is applied.)
+    RevertBasis1Qb(qubit);
+    RevertBasis2Qb(qubit, ONLY_INVERT, ONLY_TARGETS);
 
     QEngineShard& shard = shards[qubit];
 
@@ -1463,12 +1477,6 @@ bitCapInt QUnit::ForceMReg(bitLenInt start, bitLenInt length, const bitCapInt& r
         return MAll();
     }
 
-    // This will discard all buffered gates that don't affect Z basis probability,
-    // so it's safe to call ToPermBasis() without performance penalty, afterward.
-    if (!doApply) {
-        ToPermBasisMeasure(start, length);
-    }
-
     return QInterface::ForceMReg(start, length, result, doForce, doApply);
 }
 
@@ -1623,7 +1631,7 @@ std::map<bitCapInt, int> QUnit::MultiShotMeasureMask(const std::vector<bitCapInt
 
                 auto pickIter = topLevelResults.begin();
                 int count = pickIter->second;
-                while (pick > count) {
+                while (pick >= count) {
                     ++pickIter;
                     count += pickIter->second;
                 }
@@ -1714,12 +1722,7 @@ void QUnit::MultiShotMeasureMask(const std::vector<bitCapInt>& qPowers, unsigned
         QInterfacePtr unit = shards[log2(qPowers[0U])].unit;
         if (unit) {
             std::vector<bitCapInt> mappedIndices(qPowers.size());
-            for (bitLenInt j = 0U; j < qubitCount; ++j) {
-                if (qPowers[0U] >= pow2(j)) {
-                    mappedIndices[0U] = pow2(shards[j].mapped);
-                    break;
-                }
-            }
+            mappedIndices[0U] = pow2(shards[log2(qPowers[0U])].mapped);
             for (size_t i = 1U; i < qPowers.size(); ++i) {
                 const size_t qubit = log2(qPowers[i]);
                 if (qubit >= qubitCount) {
@@ -1731,12 +1734,7 @@ void QUnit::MultiShotMeasureMask(const std::vector<bitCapInt>& qPowers, unsigned
                     unit = nullptr;
                     break;
                 }
-                for (bitLenInt j = 0U; j < qubitCount; ++j) {
-                    if (qPowers[i] >= pow2(j)) {
-                        mappedIndices[i] = pow2(shards[j].mapped);
-                        break;
-                    }
-                }
+                mappedIndices[i] = pow2(shards[qubit].mapped);
             }
 
             if (unit) {
@@ -1751,7 +1749,7 @@ void QUnit::MultiShotMeasureMask(const std::vector<bitCapInt>& qPowers, unsigned
     std::map<bitCapInt, int>::iterator it = results.begin();
     while (it != results.end() && (j < shots)) {
         for (int i = 0; i < it->second; ++i) {
-            shotsArray[j] = (unsigned)(bitCapIntOcl)it->first;
+            shotsArray[j] = (unsigned long long)(bitCapIntOcl)it->first;
             ++j;
         }
 
@@ -1762,10 +1760,13 @@ void QUnit::MultiShotMeasureMask(const std::vector<bitCapInt>& qPowers, unsigned
 /// Set register bits to given permutation
 void QUnit::SetReg(bitLenInt start, bitLenInt length, const bitCapInt& value)
 {
-    MReg(start, length);
+    const bitCapInt diff = MReg(start, length) ^ value;
 
+    // (The measured shards might still buffer phase gates with bits outside of the register.)
     for (bitLenInt i = 0U; i < length; ++i) {
-        shards[i + start] = QEngineShard(bi_and_1(value >> i) != 0U, GetNonunitaryPhase());
+        if (bi_and_1(diff >> i)) {
+            X(start + i);
+        }
     }
 }
 
@@ -1921,7 +1922,20 @@ void QUnit::UniformlyControlledSingleBit(const std::vector<bitLenInt>& controls,
 {
     // If there are no controls, this is equivalent to the single bit gate.
     if (controls.empty()) {
-        return Mtrx(mtrxs, qubitIndex);
+        return Mtrx(mtrxs + ((bitCapIntOcl)mtrxSkipValueMask << 2U), qubitIndex);
+    }
+
+    if (!mtrxSkipPowers.empty() || (bi_compare_0(mtrxSkipValueMask) != 0)) {
+        // Gather just the payloads that aren't skipped, before looking for separable controls.
+        const bitCapIntOcl payloadCount = pow2Ocl(controls.size());
+        std::unique_ptr<complex[]> payloads(new complex[payloadCount << 2U]);
+        for (bitCapIntOcl i = 0U; i < payloadCount; ++i) {
+            const complex* mtrx =
+                mtrxs + ((bitCapIntOcl)(pushApartBits(i, mtrxSkipPowers) | mtrxSkipValueMask) << 2U);
+            std::copy(mtrx, mtrx + 4U, payloads.get() + (i << 2U));
+        }
+        return UniformlyControlledSingleBit(
+            controls, qubitIndex, payloads.get(), std::vector<bitCapInt>(), ZERO_BCI);
     }
 
     if (qubitIndex >= qubitCount) {
@@ -2819,12 +2833,10 @@ void QUnit::INCx(INCxFn fn, const bitCapInt& toMod, bitLenInt start, bitLenInt l
         throw std::invalid_argument("QUnit::INCx flagIndex parameter must be within allocated qubit bounds!");
     }
 
-    DirtyShardRange(start, length);
-    DirtyShardRangePhase(start, length);
-    shards[flagIndex].MakeDirty();
-
     EntangleRange(start, length);
     QInterfacePtr unit = Entangle({ start, flagIndex });
+    DirtyShardRange(start, length);
+    shards[flagIndex].MakeDirty();
     ((*std::dynamic_pointer_cast<QAlu>(unit)).*fn)(toMod, shards[start].mapped, length, shards[flagIndex].mapped);
 }
 
@@ -2844,14 +2856,12 @@ void QUnit::INCxx(
     }
 
     // Make sure the flag bits are entangled in the same QU.
+    EntangleRange(start, length);
+    QInterfacePtr unit = Entangle({ start, flag1Index, flag2Index });
     DirtyShardRange(start, length);
-    DirtyShardRangePhase(start, length);
     shards[flag1Index].MakeDirty();
     shards[flag2Index].MakeDirty();
 
-    EntangleRange(start, length);
-    QInterfacePtr unit = Entangle({ start, flag1Index, flag2Index });
-
     ((*std::dynamic_pointer_cast<QAlu>(unit)).*fn)(
         toMod, shards[start].mapped, length, shards[flag1Index].mapped, shards[flag2Index].mapped);
 }
@@ -2933,6 +2943,10 @@ void QUnit::INT(const bitCapInt& _toMod, bitLenInt start, bitLenInt length, bitL
 
     // Keep the bits separate, if cheap to do so:
     bitCapInt toMod = _toMod & pow2Mask(length);
+    if (hasCarry && (bi_compare(_toMod, toMod) != 0)) {
+        // (Carry-in can promote the addend to the full power of the register.)
+        MCInvert(controls, ONE_CMPLX, ONE_CMPLX, carryIndex);
+    }
     if (bi_compare_0(toMod) == 0) {
         return;
     }
@@ -3028,12 +3042,12 @@ void QUnit::INT(const bitCapInt& _toMod, bitLenInt start, bitLenInt length, bitL
 
                 // If toAdd == inReg, this prevents superposition of the carry-out. The carry out of the truth table
                 // is independent of the superposed output value of the quantum bit.
-                DirtyShardRange(start, partLength);
                 EntangleRange(start, partLength);
+                DirtyShardRange(start, partLength);
                 if (controlLen) {
                     allBits[controlLen] = start;
-                    DirtyShardIndexVector(allBits);
                     QInterfacePtr unit = Entangle(ebits);
+                    DirtyShardIndexVector(controls);
                     std::vector<bitLenInt> lControls(controlLen);
                     for (bitLenInt cIndex = 0U; cIndex < controlLen; ++cIndex) {
                         lControls[cIndex] = shards[controls[cIndex]].mapped;
@@ -3071,19 +3085,19 @@ void QUnit::INT(const bitCapInt& _toMod, bitLenInt start, bitLenInt length, bitL
             // implement, once the QEngine methods were in place.
             throw std::logic_error("ERROR: Controlled-with-carry arithmetic is not implemented!");
         } else {
-            DirtyShardRange(start, length);
-            shards[carryIndex].MakeDirty();
             EntangleRange(start, length);
             QInterfacePtr unit = Entangle({ start, carryIndex });
+            DirtyShardRange(start, length);
+            shards[carryIndex].MakeDirty();
             unit->INCC(toMod, shards[start].mapped, length, shards[carryIndex].mapped);
         }
     } else {
-        DirtyShardRange(start, length);
         EntangleRange(start, length);
+        DirtyShardRange(start, length);
         if (controlLen) {
             allBits[controlLen] = start;
-            DirtyShardIndexVector(allBits);
             QInterfacePtr unit = Entangle(ebits);
+            DirtyShardIndexVector(controls);
             std::vector<bitLenInt> lControls(controlLen);
             for (bitLenInt cIndex = 0U; cIndex < controlLen; ++cIndex) {
                 lControls[cIndex] = shards[controls[cIndex]].mapped;
@@ -3140,6 +3154,10 @@ void QUnit::INTS(const bitCapInt& _toMod, bitLenInt start, bitLenInt length, bit
     }
 
     bitCapInt toMod = _toMod & pow2Mask(length);
+    if (hasCarry && (bi_compare(_toMod, toMod) != 0)) {
+        // (Carry-in can promote the addend to the full power of the register.)
+        X(carryIndex);
+    }
     if (bi_compare_0(toMod) == 0) {
         return;
     }
@@ -3202,8 +3220,8 @@ void QUnit::INCBCD(const bitCapInt& toMod, bitLenInt start, bitLenInt length)
     }
 
     // BCD variants are low priority for optimization, for the time being.
-    DirtyShardRange(start, length);
     std::dynamic_pointer_cast<QAlu>(EntangleRange(start, length))->INCBCD(toMod, shards[start].mapped, length);
+    DirtyShardRange(start, length);
 }
 
 void QUnit::DECBCD(const bitCapInt& toMod, bitLenInt start, bitLenInt length)
@@ -3213,8 +3231,8 @@ void QUnit::DECBCD(const bitCapInt& toMod, bitLenInt start, bitLenInt length)
     }
 
     // BCD variants are low priority for optimization, for the time being.
-    DirtyShardRange(start, length);
     std::dynamic_pointer_cast<QAlu>(EntangleRange(start, length))->DECBCD(toMod, shards[start].mapped, length);
+    DirtyShardRange(start, length);
 }
 
 void QUnit::INCDECBCDC(const bitCapInt& toMod, bitLenInt start, bitLenInt length, bitLenInt carryIndex)
@@ -3250,12 +3268,11 @@ void QUnit::MUL(const bitCapInt& toMul, bitLenInt inOutStart, bitLenInt carrySta
         return SetReg(carryStart, length, (res >> length) & lengthMask);
     }
 
-    DirtyShardRange(inOutStart, length);
-    DirtyShardRange(carryStart, length);
-
     // Otherwise, form the potentially entangled representation:
     std::dynamic_pointer_cast<QAlu>(EntangleRange(inOutStart, length, carryStart, length))
         ->MUL(toMul, shards[inOutStart].mapped, shards[carryStart].mapped, length);
+    DirtyShardRange(inOutStart, length);
+    DirtyShardRange(carryStart, length);
 }
 
 void QUnit::DIV(const bitCapInt& toDiv, bitLenInt inOutStart, bitLenInt carryStart, bitLenInt length)
@@ -3286,12 +3303,11 @@ void QUnit::DIV(const bitCapInt& toDiv, bitLenInt inOutStart, bitLenInt carrySta
         return;
     }
 
-    DirtyShardRange(inOutStart, length);
-    DirtyShardRange(carryStart, length);
-
     // Otherwise, form the potentially entangled representation:
     std::dynamic_pointer_cast<QAlu>(EntangleRange(inOutStart, length, carryStart, length))
         ->DIV(toDiv, shards[inOutStart].mapped, shards[carryStart].mapped, length);
+    DirtyShardRange(inOutStart, length);
+    DirtyShardRange(carryStart, length);
 }
 
 void QUnit::POWModNOut(
@@ -3328,8 +3344,6 @@ void QUnit::POWModNOut(
 QInterfacePtr QUnit::CMULEntangle(std::vector<bitLenInt> controlVec, bitLenInt start, bitLenInt carryStart,
     bitLenInt length, std::vector<bitLenInt>* controlsMapped)
 {
-    DirtyShardRangePhase(start, length);
-    DirtyShardRange(carryStart, length);
     EntangleRange(start, length);
     EntangleRange(carryStart, length);
 
@@ -3347,6 +3361,8 @@ QInterfacePtr QUnit::CMULEntangle(std::vector<bitLenInt> controlVec, bitLenInt s
     }
 
     QInterfacePtr unit = Entangle(ebits);
+    DirtyShardRangePhase(start, length);
+    DirtyShardRange(carryStart, length);
 
     if (controlVec.size()) {
         controlsMapped->resize(controlVec.size());
@@ -3650,8 +3666,8 @@ void QUnit::Hash(bitLenInt start, bitLenInt length, const unsigned char* values)
         return SetReg(start, length, value);
     }
 
-    DirtyShardRange(start, length);
     std::dynamic_pointer_cast<QAlu>(EntangleRange(start, length))->Hash(shards[start].mapped, length, values);
+    DirtyShardRange(start, length);
 }
 
 void QUnit::PhaseFlipIfLess(const bitCapInt& greaterPerm, bitLenInt start, bitLenInt length)
@@ -3669,9 +3685,9 @@ void QUnit::PhaseFlipIfLess(const bitCapInt& greaterPerm, bitLenInt start, bitLe
         return;
     }
 
-    DirtyShardRange(start, length);
     std::dynamic_pointer_cast<QAlu>(EntangleRange(start, length))
         ->PhaseFlipIfLess(greaterPerm, shards[start].mapped, length);
+    DirtyShardRange(start, length);
 }
 
 void QUnit::CPhaseFlipIfLess(const bitCapInt& greaterPerm, bitLenInt start, bitLenInt length, bitLenInt flagIndex)
@@ -3692,11 +3708,11 @@ void QUnit::CPhaseFlipIfLess(const bitCapInt& greaterPerm, bitLenInt start, bitL
         return;
     }
 
-    DirtyShardRange(start, length);
-    shards[flagIndex].isPhaseDirty = true;
     EntangleRange(start, length);
     std::dynamic_pointer_cast<QAlu>(Entangle({ start, flagIndex }))
         ->CPhaseFlipIfLess(greaterPerm, shards[start].mapped, length, shards[flagIndex].mapped);
+    DirtyShardRange(start, length);
+    shards[flagIndex].isPhaseDirty = true;
 }
 #endif
 
@@ -3809,7 +3825,7 @@ real1_f QUnit::SumSqrDiff(QUnitPtr toCompare)
             oAmps[1U] = thatShard.amp1;
         }
 
-        return (real1_f)(norm(mAmps[0U] - oAmps[0U]) + norm(mAmps[1U] - oAmps[1U]));
+        return ONE_R1_F - clampProb((real1_f)norm(conj(mAmps[0U]) * oAmps[0U] + conj(mAmps[1U]) * oAmps[1U]));
     }
 
     if (CheckBitsPermutation(0U, qubitCount) && toCompare->CheckBitsPermutation(0U, qubitCount)) {
-- 
2.43.0


From 205a1c87932d6f6b7235fc30b28a4f0c75942355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:48 +0000
Subject: [PATCH 14/49] fix: modular powers do not overflow, and 128-bit log2 /
 64-bit population count do not truncate

---
 include/common/qrack_functions.hpp | 13 +++++++++++--
 src/common/functions.cpp           | 29 +++++++++++++++++++++++++++++
 src/qengine/arithmetic.cpp         | 10 ++++++----
 src/qunit.cpp                      |  4 +---
 4 files changed, 47 insertions(+), 9 deletions(-)

diff --git a/include/common/qrack_functions.hpp b/include/common/qrack_functions.hpp
index dac76b7..d415b4a 100644
--- a/include/common/qrack_functions.hpp
+++ b/include/common/qrack_functions.hpp
@@ -118,7 +118,7 @@ inline bitLenInt popCountOcl(bitCapIntOcl n)
 #if CPP_STD >= 20
     return (bitLenInt)std::popcount(n);
 #elif (defined(__GNUC__) || defined(__clang__)) && !TARGET_OS_IPHONE && !TARGET_IPHONE_SIMULATOR
-    return __builtin_popcount(n);
+    return (bitLenInt)__builtin_popcountll((unsigned long long)n);
 #else
     bitLenInt popCount;
     for (popCount = 0U; n; ++popCount) {
@@ -128,8 +128,15 @@ inline bitLenInt popCountOcl(bitCapIntOcl n)
 #endif
 }
 
-#if (QBCAPPOW < 7) || ((QBCAPPOW < 8) && defined(__SIZEOF_INT128__))
+#if QBCAPPOW < 7
 inline int bi_log2(const bitCapInt& n) { return log2Ocl(n); }
+#elif (QBCAPPOW < 8) && defined(__SIZEOF_INT128__)
+inline int bi_log2(const bitCapInt& n)
+{
+    const unsigned long long high = (unsigned long long)(n >> 64U);
+
+    return high ? (64 + (int)log2Ocl((bitCapIntOcl)high)) : (int)log2Ocl((bitCapIntOcl)n);
+}
 #endif
 inline bitLenInt log2(bitCapInt n) { return (bitLenInt)bi_log2(n); }
 
@@ -206,6 +213,8 @@ bool isOverflowSub(
 bitCapInt pushApartBits(const bitCapInt& perm, const std::vector<bitCapInt>& skipPowers);
 bitCapInt intPow(const bitCapInt& base, const bitCapInt& power);
 bitCapIntOcl intPowOcl(bitCapIntOcl base, bitCapIntOcl power);
+bitCapInt intPowMod(const bitCapInt& base, const bitCapInt& power, const bitCapInt& modN);
+bitCapIntOcl intPowModOcl(bitCapIntOcl base, bitCapIntOcl power, bitCapIntOcl modN);
 
 #if QBCAPPOW > 6
 std::ostream& operator<<(std::ostream& os, const bitCapInt& b);
diff --git a/src/common/functions.cpp b/src/common/functions.cpp
index f5302e1..8ae0f9f 100644
--- a/src/common/functions.cpp
+++ b/src/common/functions.cpp
@@ -92,6 +92,35 @@ bitCapIntOcl intPowOcl(bitCapIntOcl base, bitCapIntOcl power)
 
     return tmp;
 }
+// Reduce at every step, so that the intermediate power doesn't overflow:
+bitCapInt intPowMod(const bitCapInt& base, const bitCapInt& power, const bitCapInt& modN)
+{
+    bitCapInt b, result, tmp;
+    bi_div_mod(base, modN, nullptr, &b);
+    bi_div_mod(ONE_BCI, modN, nullptr, &result);
+    for (bitCapInt p = power; bi_compare_0(p) != 0; bi_rshift_ip(&p, 1U)) {
+        if (bi_and_1(p)) {
+            tmp = result * b;
+            bi_div_mod(tmp, modN, nullptr, &result);
+        }
+        tmp = b * b;
+        bi_div_mod(tmp, modN, nullptr, &b);
+    }
+
+    return result;
+}
+bitCapIntOcl intPowModOcl(bitCapIntOcl base, bitCapIntOcl power, bitCapIntOcl modN)
+{
+    bitCapIntOcl result = 1U % modN;
+    for (base %= modN; power; power >>= 1U) {
+        if (power & 1U) {
+            result = (result * base) % modN;
+        }
+        base = (base * base) % modN;
+    }
+
+    return result;
+}
 
 #if ENABLE_COMPLEX_X2
 void mul2x2(const complex* left, const complex* right, complex* out)
diff --git a/src/qengine/arithmetic.cpp b/src/qengine/arithmetic.cpp
index 67f49a2..b91dfd1 100644
--- a/src/qengine/arithmetic.cpp
+++ b/src/qengine/arithmetic.cpp
@@ -613,8 +613,9 @@ void QEngineCPU::POWModNOut(
     }
 
     const bitCapIntOcl toModOcl = (bitCapIntOcl)toMod;
-    ModNOut(
-        [&toModOcl](const bitCapIntOcl& inInt) { return intPowOcl(toModOcl, inInt); }, modN, inStart, outStart, length);
+    const bitCapIntOcl modNOcl = (bitCapIntOcl)modN;
+    ModNOut([&toModOcl, &modNOcl](const bitCapIntOcl& inInt) { return intPowModOcl(toModOcl, inInt, modNOcl); }, modN,
+        inStart, outStart, length);
 }
 
 void QEngineCPU::CModNOut(const MFn& kernelFn, const bitCapInt& modN, const bitLenInt& inStart,
@@ -718,8 +719,9 @@ void QEngineCPU::CPOWModNOut(const bitCapInt& toMod, const bitCapInt& modN, bitL
     }
 
     const bitCapIntOcl toModOcl = (bitCapIntOcl)toMod;
-    CModNOut([&toModOcl](const bitCapIntOcl& inInt) { return intPowOcl(toModOcl, inInt); }, modN, inStart, outStart,
-        length, controls);
+    const bitCapIntOcl modNOcl = (bitCapIntOcl)modN;
+    CModNOut([&toModOcl, &modNOcl](const bitCapIntOcl& inInt) { return intPowModOcl(toModOcl, inInt, modNOcl); }, modN,
+        inStart, outStart, length, controls);
 }
 
 #if ENABLE_BCD
diff --git a/src/qunit.cpp b/src/qunit.cpp
index ccc0a41..58d6634 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -3327,9 +3327,7 @@ void QUnit::POWModNOut(
 
     // Keep the bits separate, if cheap to do so:
     if (CheckBitsPermutation(inStart, length)) {
-        bitCapInt res;
-        bi_div_mod(intPow(toMod, GetCachedPermutation(inStart, length)), modN, nullptr, &res);
-        return SetReg(outStart, length, res);
+        return SetReg(outStart, length, intPowMod(toMod, GetCachedPermutation(inStart, length), modN));
     }
 
     SetReg(outStart, length, ZERO_BCI);
-- 
2.43.0


From e9d10c190a5ed0a302f473f9049c25ee50b5ac4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:48 +0000
Subject: [PATCH 15/49] fix: forced parity measurement leaves a normalised
 state when normalising lazily

---
 src/qengine/state.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/qengine/state.cpp b/src/qengine/state.cpp
index 8751196..ed2cc23 100644
--- a/src/qengine/state.cpp
+++ b/src/qengine/state.cpp
@@ -1560,10 +1560,7 @@ bool QEngineCPU::ForceMParity(const bitCapInt& mask, bool result, bool doForce)
     oddChanceBuff.reset();
 
     runningNorm = oddChance;
-
-    if (!doNormalize) {
-        NormalizeState();
-    }
+    NormalizeState();
 
     return result;
 }
-- 
2.43.0


From 8f1ab34da78c241aa163dc9f59d3f7561bfc26f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:21 +0000
Subject: [PATCH 16/49] fix: QPager composition, decomposition, page access,
 inner product, signed addition and wide meta-controls

---
 include/qpager.hpp |   6 +-
 src/qpager.cpp     | 188 ++++++++++++++-------------------------------
 2 files changed, 62 insertions(+), 132 deletions(-)

diff --git a/include/qpager.hpp b/include/qpager.hpp
index 7a73271..7683183 100644
--- a/include/qpager.hpp
+++ b/include/qpager.hpp
@@ -51,7 +51,7 @@ protected:
 
     void SetQubitCount(bitLenInt qb)
     {
-        QInterface::SetQubitCount(qb);
+        QEngine::SetQubitCount(qb);
         baseQubitsPerPage = (qubitCount < thresholdQubitsPerPage) ? qubitCount : thresholdQubitsPerPage;
         basePageCount = pow2Ocl(qubitCount - baseQubitsPerPage);
         basePageMaxQPower = pow2Ocl(baseQubitsPerPage);
@@ -96,8 +96,6 @@ protected:
 
     void GetSetAmplitudePage(complex* pagePtr, const complex* cPagePtr, bitCapIntOcl offset, bitCapIntOcl length);
 
-    real1_f ExpVarBitsAll(bool isExp, const std::vector<bitLenInt>& bits, const bitCapInt& offset = ZERO_BCI);
-
     using QEngine::Copy;
     void Copy(QInterfacePtr orig) { Copy(std::dynamic_pointer_cast<QPager>(orig)); }
     void Copy(QPagerPtr orig)
@@ -382,6 +380,8 @@ public:
     }
 
 #if ENABLE_ALU
+    void INCS(const bitCapInt& toAdd, bitLenInt start, bitLenInt length, bitLenInt overflowIndex);
+    void DECS(const bitCapInt& toSub, bitLenInt start, bitLenInt length, bitLenInt overflowIndex);
     void INCDECSC(
         const bitCapInt& toAdd, bitLenInt start, bitLenInt length, bitLenInt overflowIndex, bitLenInt carryIndex);
     void INCDECSC(const bitCapInt& toAdd, bitLenInt start, bitLenInt length, bitLenInt carryIndex);
diff --git a/src/qpager.cpp b/src/qpager.cpp
index b6def0f..ee05839 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -291,19 +291,17 @@ void QPager::GetSetAmplitudePage(complex* pagePtr, const complex* cPagePtr, bitC
 {
     const bitCapIntOcl pageLength = (bitCapIntOcl)pageMaxQPower();
     bitCapIntOcl perm = 0U;
+    const bitCapIntOcl end = offset + length;
     for (bitCapIntOcl i = 0U; i < qPages.size(); ++i) {
-        if ((perm + length) < offset) {
-            continue;
-        }
-        if (perm >= (offset + length)) {
-            break;
-        }
-        const bitCapIntOcl partOffset = (perm < offset) ? (offset - perm) : 0U;
-        const bitCapIntOcl partLength = (length < pageLength) ? length : pageLength;
-        if (cPagePtr) {
-            qPages[i]->SetAmplitudePage(cPagePtr, partOffset, partLength);
-        } else {
-            qPages[i]->GetAmplitudePage(pagePtr, partOffset, partLength);
+        const bitCapIntOcl partBegin = (perm < offset) ? offset : perm;
+        const bitCapIntOcl partEnd = (end < (perm + pageLength)) ? end : (perm + pageLength);
+        if (partBegin < partEnd) {
+            const bitCapIntOcl partLength = partEnd - partBegin;
+            if (cPagePtr) {
+                qPages[i]->SetAmplitudePage(cPagePtr + (partBegin - offset), partBegin - perm, partLength);
+            } else {
+                qPages[i]->GetAmplitudePage(pagePtr + (partBegin - offset), partBegin - perm, partLength);
+            }
         }
         perm += pageLength;
     }
@@ -561,7 +559,7 @@ void QPager::SemiMetaControlled(
 {
     const bitLenInt qpp = qubitsPerPage();
 
-    std::vector<bitLenInt> sortedMasks(controls.size());
+    std::vector<bitCapIntOcl> sortedMasks(controls.size());
 
     bitCapIntOcl controlMask = 0U;
     for (size_t i = 0U; i < controls.size(); ++i) {
@@ -708,8 +706,9 @@ bitLenInt QPager::ComposeEither(QPagerPtr toCopy, bool willDestroy)
 
 QInterfacePtr QPager::Decompose(bitLenInt start, bitLenInt length)
 {
-    QPagerPtr dest = std::make_shared<QPager>(engines, qubitCount, ZERO_BCI, rand_generator, ONE_CMPLX, doNormalize,
-        randGlobalPhase, false, 0, !hardware_rand_generator ? false : true, isSparse, (real1_f)amplitudeFloor);
+    QPagerPtr dest = std::make_shared<QPager>(engines, length, ZERO_BCI, rand_generator, ONE_CMPLX, doNormalize,
+        randGlobalPhase, false, 0, !hardware_rand_generator ? false : true, isSparse, (real1_f)amplitudeFloor,
+        deviceIDs, thresholdQubitsPerPage);
 
     Decompose(start, dest);
 
@@ -719,74 +718,38 @@ QInterfacePtr QPager::Decompose(bitLenInt start, bitLenInt length)
 void QPager::Decompose(bitLenInt start, QPagerPtr dest)
 {
     const bitLenInt length = dest->GetQubitCount();
-    CombineEngines(length + 1U);
-
-    if ((start + length) > qubitsPerPage()) {
-        ROR(start, 0, qubitCount);
-        Decompose(0, dest);
-
-        return ROL(start, 0, qubitCount);
-    }
 
+    // (No single page determines the state of the decomposed qubits, in general.)
+    CombineEngines();
     dest->CombineEngines();
 
-    bool isDecomposed = false;
-    for (QEnginePtr& qPage : qPages) {
-        if (!isDecomposed && !qPage->IsZeroAmplitude()) {
-            qPage->Decompose(start, dest->qPages[0U]);
-            dest->qPages[0U]->UpdateRunningNorm();
-            dest->qPages[0U]->NormalizeState();
-            isDecomposed = true;
-        } else {
-            qPage->Dispose(start, length);
-        }
-    }
+    qPages[0U]->Decompose(start, dest->qPages[0U]);
 
     SetQubitCount(qubitCount - length);
 
-    CombineEngines(thresholdQubitsPerPage);
     SeparateEngines();
+    dest->SeparateEngines();
 }
 
 void QPager::Dispose(bitLenInt start, bitLenInt length)
 {
-    CombineEngines(length + 1U);
-
-    if ((start + length) > qubitsPerPage()) {
-        ROR(start, 0, qubitCount);
-        Dispose(0, length);
-
-        return ROL(start, 0, qubitCount);
-    }
+    CombineEngines();
 
-    for (const QEnginePtr& qPage : qPages) {
-        qPage->Dispose(start, length);
-    }
+    qPages[0U]->Dispose(start, length);
 
     SetQubitCount(qubitCount - length);
 
-    CombineEngines(thresholdQubitsPerPage);
     SeparateEngines();
 }
 
 void QPager::Dispose(bitLenInt start, bitLenInt length, const bitCapInt& disposedPerm)
 {
-    CombineEngines(length + 1U);
-
-    if ((start + length) > qubitsPerPage()) {
-        ROR(start, 0, qubitCount);
-        Dispose(0, length, disposedPerm);
+    CombineEngines();
 
-        return ROL(start, 0, qubitCount);
-    }
-
-    for (const QEnginePtr& qPage : qPages) {
-        qPage->Dispose(start, length, disposedPerm);
-    }
+    qPages[0U]->Dispose(start, length, disposedPerm);
 
     SetQubitCount(qubitCount - length);
 
-    CombineEngines(thresholdQubitsPerPage);
     SeparateEngines();
 }
 
@@ -1146,6 +1109,16 @@ bool QPager::ForceM(bitLenInt qubit, bool result, bool doForce, bool doApply)
 }
 
 #if ENABLE_ALU
+void QPager::INCS(const bitCapInt& toAdd, bitLenInt start, bitLenInt length, bitLenInt overflowIndex)
+{
+    CombineAndOp([&](QEnginePtr engine) { engine->INCS(toAdd, start, length, overflowIndex); },
+        { static_cast<bitLenInt>(start + length - 1U), overflowIndex });
+}
+void QPager::DECS(const bitCapInt& toSub, bitLenInt start, bitLenInt length, bitLenInt overflowIndex)
+{
+    CombineAndOp([&](QEnginePtr engine) { engine->DECS(toSub, start, length, overflowIndex); },
+        { static_cast<bitLenInt>(start + length - 1U), overflowIndex });
+}
 void QPager::INCDECSC(
     const bitCapInt& toAdd, bitLenInt start, bitLenInt length, bitLenInt overflowIndex, bitLenInt carryIndex)
 {
@@ -1171,6 +1144,8 @@ void QPager::INCDECBCDC(const bitCapInt& toAdd, bitLenInt start, bitLenInt lengt
 #endif
 void QPager::MUL(const bitCapInt& toMul, bitLenInt inOutStart, bitLenInt carryStart, bitLenInt length)
 {
+    // (The output register is reset in each page, so no page can hold just part of the norm.)
+    CombineEngines();
     CombineAndOp([&](QEnginePtr engine) { engine->MUL(toMul, inOutStart, carryStart, length); },
         { static_cast<bitLenInt>(inOutStart + length - 1U), static_cast<bitLenInt>(carryStart + length - 1U) });
 }
@@ -1182,6 +1157,8 @@ void QPager::DIV(const bitCapInt& toDiv, bitLenInt inOutStart, bitLenInt carrySt
 void QPager::MULModNOut(
     const bitCapInt& toMul, const bitCapInt& modN, bitLenInt inStart, bitLenInt outStart, bitLenInt length)
 {
+    // (The output register is reset in each page, so no page can hold just part of the norm.)
+    CombineEngines();
     CombineAndOp([&](QEnginePtr engine) { engine->MULModNOut(toMul, modN, inStart, outStart, length); },
         { static_cast<bitLenInt>(inStart + length - 1U), static_cast<bitLenInt>(outStart + length - 1U) });
 }
@@ -1194,6 +1171,8 @@ void QPager::IMULModNOut(
 void QPager::POWModNOut(
     const bitCapInt& base, const bitCapInt& modN, bitLenInt inStart, bitLenInt outStart, bitLenInt length)
 {
+    // (The output register is reset in each page, so no page can hold just part of the norm.)
+    CombineEngines();
     CombineAndOp([&](QEnginePtr engine) { engine->POWModNOut(base, modN, inStart, outStart, length); },
         { static_cast<bitLenInt>(inStart + length - 1U), static_cast<bitLenInt>(outStart + length - 1U) });
 }
@@ -1204,6 +1183,8 @@ void QPager::CMUL(const bitCapInt& toMul, bitLenInt inOutStart, bitLenInt carryS
         return MUL(toMul, inOutStart, carryStart, length);
     }
 
+    // (The output register is reset in each page, so no page can hold just part of the norm.)
+    CombineEngines();
     CombineAndOpControlled([&](QEnginePtr engine) { engine->CMUL(toMul, inOutStart, carryStart, length, controls); },
         { static_cast<bitLenInt>(inOutStart + length - 1U), static_cast<bitLenInt>(carryStart + length - 1U) },
         controls);
@@ -1226,6 +1207,8 @@ void QPager::CMULModNOut(const bitCapInt& toMul, const bitCapInt& modN, bitLenIn
         return MULModNOut(toMul, modN, inStart, outStart, length);
     }
 
+    // (The output register is reset in each page, so no page can hold just part of the norm.)
+    CombineEngines();
     CombineAndOpControlled(
         [&](QEnginePtr engine) { engine->CMULModNOut(toMul, modN, inStart, outStart, length, controls); },
         { static_cast<bitLenInt>(inStart + length - 1U), static_cast<bitLenInt>(outStart + length - 1U) }, controls);
@@ -1248,6 +1231,8 @@ void QPager::CPOWModNOut(const bitCapInt& base, const bitCapInt& modN, bitLenInt
         return POWModNOut(base, modN, inStart, outStart, length);
     }
 
+    // (The output register is reset in each page, so no page can hold just part of the norm.)
+    CombineEngines();
     CombineAndOpControlled(
         [&](QEnginePtr engine) { engine->CPOWModNOut(base, modN, inStart, outStart, length, controls); },
         { static_cast<bitLenInt>(inStart + length - 1U), static_cast<bitLenInt>(outStart + length - 1U) }, controls);
@@ -1529,52 +1514,6 @@ real1_f QPager::ProbMask(const bitCapInt& mask, const bitCapInt& permutation)
     return clampProb((real1_f)maskChance);
 }
 
-real1_f QPager::ExpVarBitsAll(bool isExp, const std::vector<bitLenInt>& bits, const bitCapInt& offset)
-{
-    if (bits.size() != qubitCount) {
-        return QInterface::ExpVarBitsAll(isExp, bits, offset);
-    }
-
-    for (bitCapIntOcl i = 0U; i < bits.size(); ++i) {
-        if (bits[i] != i) {
-            return QInterface::ExpVarBitsAll(isExp, bits, offset);
-        }
-    }
-
-    const bitCapIntOcl pagePower = (bitCapIntOcl)pageMaxQPower();
-    real1_f expectation = ZERO_R1_F;
-    bitCapIntOcl pagePerm = 0U;
-#if ENABLE_PTHREAD
-    const unsigned numCores = GetConcurrencyLevel();
-    const bitCapIntOcl fCount = (qPages.size() < numCores) ? qPages.size() : numCores;
-    std::vector<std::future<real1_f>> futures(fCount);
-#endif
-    for (bitCapIntOcl i = 0U; i < qPages.size(); ++i) {
-        QEnginePtr engine = qPages[i];
-#if ENABLE_PTHREAD
-        const bitCapIntOcl iF = i % fCount;
-        if (i != iF) {
-            expectation += futures[iF].get();
-        }
-        futures[iF] = std::async(std::launch::async, [engine, isExp, bits, pagePerm, offset]() {
-            return isExp ? engine->ExpectationBitsAll(bits, pagePerm + (bitCapIntOcl)offset)
-                         : engine->VarianceBitsAll(bits, pagePerm + (bitCapIntOcl)offset);
-        });
-#else
-        expectation += isExp ? engine->ExpectationBitsAll(bits, pagePerm + offset)
-                             : engine->VarianceBitsAll(bits, pagePerm + offset);
-#endif
-        pagePerm += pagePower;
-    }
-#if ENABLE_PTHREAD
-    for (std::future<real1_f>& future : futures) {
-        expectation += future.get();
-    }
-#endif
-
-    return expectation;
-}
-
 void QPager::UpdateRunningNorm(real1_f norm_thresh)
 {
     for (const QEnginePtr& qPage : qPages) {
@@ -1586,6 +1525,8 @@ void QPager::NormalizeState(real1_f nrm, real1_f norm_thresh, real1_f phaseArg)
 {
     real1_f nmlzr;
     if (nrm == REAL1_DEFAULT_ARG) {
+        // (The running norm of a page might not be known, after a write.)
+        UpdateRunningNorm(norm_thresh);
         nmlzr = ZERO_R1_F;
         for (const QEnginePtr& qPage : qPages) {
             nmlzr += qPage->GetRunningNorm();
@@ -1652,33 +1593,22 @@ real1_f QPager::SumSqrDiff(QPagerPtr toCompare)
     CombineEngines(toCompare->qubitsPerPage());
     toCompare->CombineEngines(qubitsPerPage());
 
-    real1_f toRet = ZERO_R1_F;
-#if ENABLE_PTHREAD
-    const unsigned numCores = GetConcurrencyLevel();
-    const bitCapIntOcl fCount = (qPages.size() < numCores) ? qPages.size() : numCores;
-    std::vector<std::future<real1_f>> futures(fCount);
-#endif
-    for (bitCapIntOcl i = 0U; i < qPages.size(); ++i) {
-        QEnginePtr lEngine = qPages[i];
-        QEnginePtr rEngine = toCompare->qPages[i];
-#if ENABLE_PTHREAD
-        const bitCapIntOcl iF = i % fCount;
-        if (i != iF) {
-            toRet += futures[iF].get();
+    // (The inner product adds up over pages, but its square does not.)
+    const bitCapIntOcl pagePower = (bitCapIntOcl)pageMaxQPower();
+    std::unique_ptr<complex[]> lPage(new complex[pagePower]);
+    std::unique_ptr<complex[]> rPage(new complex[pagePower]);
+    complex totInner = ZERO_CMPLX;
+    for (size_t i = 0U; i < qPages.size(); ++i) {
+        qPages[i]->GetQuantumState(lPage.get());
+        toCompare->qPages[i]->GetQuantumState(rPage.get());
+        complex inner = ZERO_CMPLX;
+        for (bitCapIntOcl j = 0U; j < pagePower; ++j) {
+            inner += conj(lPage[j]) * rPage[j];
         }
-        futures[iF] = std::async(std::launch::async, [lEngine, rEngine]() { return lEngine->SumSqrDiff(rEngine); });
-#else
-        toRet += lEngine->SumSqrDiff(rEngine);
-#endif
+        totInner += inner;
     }
 
-#if ENABLE_PTHREAD
-    for (std::future<real1_f>& future : futures) {
-        toRet += future.get();
-    }
-#endif
-
-    return toRet;
+    return ONE_R1_F - clampProb((real1_f)norm(totInner));
 }
 
 } // namespace Qrack
-- 
2.43.0


From a551959bb8f5c6352852e7edf974c69f5ce75055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:21 +0000
Subject: [PATCH 17/49] fix: QUnit::ProbAllRdm does not entangle separable
 subsystems

---
 include/qunit.hpp | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/include/qunit.hpp b/include/qunit.hpp
index fb41a97..9e2beb6 100644
--- a/include/qunit.hpp
+++ b/include/qunit.hpp
@@ -465,11 +465,28 @@ public:
             return shards[0U].unit->ProbAllRdm(roundRz, perm);
         }
 
-        QUnitPtr clone = std::dynamic_pointer_cast<QUnit>(Clone());
-        QInterfacePtr unit = clone->EntangleAll(true);
-        clone->OrderContiguous(unit);
+        // Separable subsystems are independent, (and all together might be too wide to represent in one engine).
+        real1_f result = ONE_R1_F;
+        std::map<QInterfacePtr, bitCapInt> perms;
+        for (bitLenInt i = 0U; i < qubitCount; ++i) {
+            QEngineShard& shard = shards[i];
+            const bool bit = bi_and_1(perm >> i);
+            if (!shard.unit) {
+                result *= (real1_f)norm(bit ? shard.amp1 : shard.amp0);
+                continue;
+            }
+            if (perms.find(shard.unit) == perms.end()) {
+                perms[shard.unit] = ZERO_BCI;
+            }
+            if (bit) {
+                bi_or_ip(&(perms[shard.unit]), pow2(shard.mapped));
+            }
+        }
+        for (const auto& qi : perms) {
+            result *= qi.first->ProbAllRdm(roundRz, qi.second);
+        }
 
-        return unit->ProbAllRdm(roundRz, perm);
+        return clampProb(result);
     }
     virtual real1_f ProbParity(const bitCapInt& mask);
     virtual bool ForceMParity(const bitCapInt& mask, bool result, bool doForce = true);
-- 
2.43.0


From 4c349958e905b7c6477cad4e200b87a3605b377f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:21 +0000
Subject: [PATCH 18/49] fix: SetAmplitude on a zeroed engine, and
 QInterface::Compose at an offset returns that offset

---
 src/qengine/state.cpp         | 8 ++++----
 src/qinterface/qinterface.cpp | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/qengine/state.cpp b/src/qengine/state.cpp
index ed2cc23..12e2a97 100644
--- a/src/qengine/state.cpp
+++ b/src/qengine/state.cpp
@@ -208,15 +208,15 @@ void QEngineCPU::SetAmplitude(const bitCapInt& perm, const complex& amp)
         return;
     }
 
-    if (runningNorm != REAL1_DEFAULT_ARG) {
-        runningNorm += norm(amp) - norm(stateVec->read((bitCapIntOcl)perm));
-    }
-
     if (!stateVec) {
         ResetStateVec(AllocStateVec(maxQPowerOcl));
         stateVec->clear();
     }
 
+    if (runningNorm != REAL1_DEFAULT_ARG) {
+        runningNorm += norm(amp) - norm(stateVec->read((bitCapIntOcl)perm));
+    }
+
     stateVec->write((bitCapIntOcl)perm, amp);
 }
 
diff --git a/src/qinterface/qinterface.cpp b/src/qinterface/qinterface.cpp
index 6289599..1ecbd62 100644
--- a/src/qinterface/qinterface.cpp
+++ b/src/qinterface/qinterface.cpp
@@ -412,10 +412,10 @@ bitLenInt QInterface::Compose(QInterfacePtr toCopy, bitLenInt start)
 
     const bitLenInt origSize = qubitCount;
     ROL(origSize - start, 0, qubitCount);
-    const bitLenInt result = Compose(toCopy);
+    Compose(toCopy);
     ROR(origSize - start, 0, qubitCount);
 
-    return result;
+    return start;
 }
 
 std::map<QInterfacePtr, bitLenInt> QInterface::Compose(std::vector<QInterfacePtr> toCopy)
-- 
2.43.0


From 3e679dbdb79f8bc6a8ed98dc03899a91ba3d25ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:25 +0000
Subject: [PATCH 19/49] fix: QUnit::INT with controls, indexed addition
 carries, and H after buffers leave Y basis

---
 src/qunit.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index 58d6634..d0c229d 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -2039,6 +2039,8 @@ void QUnit::H(bitLenInt target)
     } else {
         RevertBasisY(target);
         CommuteH(target);
+        // (Buffers applied in order to commute can leave the bit in "Y" basis, again.)
+        RevertBasisY(target);
     }
 
     shard.pauliBasis = (shard.pauliBasis == PauliZ) ? PauliX : PauliZ;
@@ -3045,6 +3047,8 @@ void QUnit::INT(const bitCapInt& _toMod, bitLenInt start, bitLenInt length, bitL
                 EntangleRange(start, partLength);
                 DirtyShardRange(start, partLength);
                 if (controlLen) {
+                    // ("Entangle()" replaces indices with mapped indices.)
+                    std::copy(controls.begin(), controls.end(), allBits.begin());
                     allBits[controlLen] = start;
                     QInterfacePtr unit = Entangle(ebits);
                     DirtyShardIndexVector(controls);
@@ -3095,6 +3099,8 @@ void QUnit::INT(const bitCapInt& _toMod, bitLenInt start, bitLenInt length, bitL
         EntangleRange(start, length);
         DirtyShardRange(start, length);
         if (controlLen) {
+            // ("Entangle()" replaces indices with mapped indices.)
+            std::copy(controls.begin(), controls.end(), allBits.begin());
             allBits[controlLen] = start;
             QInterfacePtr unit = Entangle(ebits);
             DirtyShardIndexVector(controls);
@@ -3584,6 +3590,9 @@ bitCapInt QUnit::IndexedADC(bitLenInt indexStart, bitLenInt indexLength, bitLenI
         return ZERO_BCI;
     }
 #endif
+    // (The engine measures the carry-in, which might update every bit entangled with it.)
+    M(carryIndex);
+
     EntangleRange(indexStart, indexLength, valueStart, valueLength, carryIndex, 1);
 
     const bitCapInt toRet = std::dynamic_pointer_cast<QAlu>(shards[indexStart].unit)
@@ -3635,6 +3644,9 @@ bitCapInt QUnit::IndexedSBC(bitLenInt indexStart, bitLenInt indexLength, bitLenI
         return ZERO_BCI;
     }
 #endif
+    // (The engine measures the carry-in, which might update every bit entangled with it.)
+    M(carryIndex);
+
     EntangleRange(indexStart, indexLength, valueStart, valueLength, carryIndex, 1);
 
     const bitCapInt toRet = std::dynamic_pointer_cast<QAlu>(shards[indexStart].unit)
-- 
2.43.0


From 32b8d81974371622514bd8a0c54b382601c38dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:33 +0000
Subject: [PATCH 20/49] fix: forced parity measurement, DispatchQueue::dump and
 page projection wait or scale as they must; IndexedLDA clears its value at
 the QUnit level

---
 src/common/dispatchqueue.cpp | 13 +++++++------
 src/qengine/state.cpp        |  2 ++
 src/qpager.cpp               |  2 +-
 src/qunit.cpp                |  5 +++++
 4 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/common/dispatchqueue.cpp b/src/common/dispatchqueue.cpp
index d7a8444..c721542 100644
--- a/src/common/dispatchqueue.cpp
+++ b/src/common/dispatchqueue.cpp
@@ -52,15 +52,16 @@ void DispatchQueue::dump()
 {
     std::unique_lock<std::mutex> lock(lock_);
 
-    if (quit_ || !isStarted_) {
+    if (quit_ || !isStarted_ || isFinished_) {
         return;
     }
 
-    std::queue<DispatchFn> empty;
-    std::swap(q_, empty);
-    isFinished_ = true;
-    lock.unlock();
-    cvFinished_.notify_all();
+    // The operation last taken off the queue might still be executing, so wait for a single no-op in place of the rest.
+    std::queue<DispatchFn> noOp;
+    noOp.push([] {});
+    std::swap(q_, noOp);
+    cv_.notify_one();
+    cvFinished_.wait(lock, [this] { return isFinished_ || quit_; });
 }
 
 void DispatchQueue::dispatch(const DispatchFn& op)
diff --git a/src/qengine/state.cpp b/src/qengine/state.cpp
index 12e2a97..9875593 100644
--- a/src/qengine/state.cpp
+++ b/src/qengine/state.cpp
@@ -1534,6 +1534,8 @@ bool QEngineCPU::ForceMParity(const bitCapInt& mask, bool result, bool doForce)
         return false;
     }
 
+    Finish();
+
     if (!doForce) {
         result = (Rand() <= ProbParity(mask));
     }
diff --git a/src/qpager.cpp b/src/qpager.cpp
index ee05839..d0dfb5b 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -1097,7 +1097,7 @@ bool QPager::ForceM(bitLenInt qubit, bool result, bool doForce, bool doApply)
         const bitCapIntOcl qPower = pow2Ocl(metaQubit);
         for (bitCapIntOcl i = 0U; i < qPages.size(); ++i) {
             if (!(i & qPower) == !result) {
-                qPages[i]->Phase(nrm, nrm, 0U);
+                qPages[i]->ApplyM(ZERO_BCI, ZERO_BCI, nrm);
                 qPages[i]->UpdateRunningNorm();
             } else {
                 qPages[i]->ZeroAmplitudes();
diff --git a/src/qunit.cpp b/src/qunit.cpp
index d0c229d..f54aab2 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -3540,6 +3540,11 @@ bitCapInt QUnit::IndexedLDA(bitLenInt indexStart, bitLenInt indexLength, bitLenI
 #endif
     }
 
+    if (resetValue) {
+        // Measuring the value register can collapse the index register, so this layer must see it.
+        SetReg(valueStart, valueLength, ZERO_BCI);
+    }
+
     EntangleRange(indexStart, indexLength, valueStart, valueLength);
 
     const bitCapInt toRet = std::dynamic_pointer_cast<QAlu>(shards[indexStart].unit)
-- 
2.43.0


From dcf522472e47ca7f53483f785cdd23fa6f6869e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:21 +0000
Subject: [PATCH 21/49] fix: separate stabilizer ranges exactly in QStabilizer
 Decompose/Dispose

The generators were taken as they came out of gaussian(), so a separable range was
dropped or split off correctly only if its tableau rows happened to line up with it.
The global phase is kept, also by QUnit::ForceM of a separable qubit.
---
 include/qstabilizer.hpp |   3 +
 src/qstabilizer.cpp     | 132 ++++++++++++++++++++++------------------
 src/qunit.cpp           |   9 ++-
 3 files changed, 83 insertions(+), 61 deletions(-)

diff --git a/include/qstabilizer.hpp b/include/qstabilizer.hpp
index 7164e8c..ef8e804 100644
--- a/include/qstabilizer.hpp
+++ b/include/qstabilizer.hpp
@@ -256,6 +256,9 @@ public:
      */
     bitLenInt gaussian();
 
+    /// Choose generators without cross terms between a separable range of qubits and the rest
+    bool SplitGenerators(const bitLenInt& start, const bitLenInt& length);
+
     bitCapInt PermCount() { return pow2(gaussian()); }
 
     void SetQuantumState(const complex* inputState);
diff --git a/src/qstabilizer.cpp b/src/qstabilizer.cpp
index d553107..b8e62a5 100644
--- a/src/qstabilizer.cpp
+++ b/src/qstabilizer.cpp
@@ -231,6 +231,68 @@ bitLenInt QStabilizer::gaussian()
     return g;
 }
 
+/**
+ * If the qubits in the range are separable from the rest, choose generators such that the ones with row indices in the
+ * range act only on qubits in the range, and all others act only on qubits outside of the range. (Destabilizers might
+ * still have cross terms, but these commute with all stabilizer generators, so they can be dropped.)
+ *
+ * @return true if the range is separable.
+ */
+bool QStabilizer::SplitGenerators(const bitLenInt& start, const bitLenInt& length)
+{
+    const bitLenInt& n = qubitCount;
+    const bitLenInt maxLcv = n << 1U;
+    const bitLenInt end = start + length;
+    bitLenInt i = n;
+
+    const auto reduce = [&](std::vector<BoolVector>& m, const bitLenInt& j, const bitLenInt& first) {
+        for (bitLenInt k = i; k < maxLcv; ++k) {
+            if (!m[k][j]) {
+                continue;
+            }
+
+            rowswap(i, k);
+            rowswap(i - n, k - n);
+            for (bitLenInt k2 = first; k2 < maxLcv; ++k2) {
+                if ((k2 != i) && m[k2][j]) {
+                    rowmult(k2, i);
+                    rowmult(i - n, k2 - n);
+                }
+            }
+            ++i;
+
+            break;
+        }
+    };
+
+    // Separate out the generators that act only inside the range:
+    for (bitLenInt j = 0U; j < n; ++j) {
+        if ((j < start) || (j >= end)) {
+            reduce(x, j, i);
+            reduce(z, j, i);
+        }
+    }
+
+    const bitLenInt outer = n - length;
+    if ((i - n) != outer) {
+        return false;
+    }
+
+    // Remove their products from all other generators:
+    for (bitLenInt j = start; j < end; ++j) {
+        reduce(x, j, n);
+        reduce(z, j, n);
+    }
+
+    for (const bitLenInt o : { (bitLenInt)0U, n }) {
+        std::rotate(x.begin() + o + start, x.begin() + o + outer, x.begin() + o + n);
+        std::rotate(z.begin() + o + start, z.begin() + o + outer, z.begin() + o + n);
+        std::rotate(r.begin() + o + start, r.begin() + o + outer, r.begin() + o + n);
+    }
+
+    return true;
+}
+
 /**
  * Finds a Pauli operator P such that the basis state P|0...0> occurs with nonzero amplitude in q, and
  * writes P to the scratch space of q.  For this to work, Gaussian elimination must already have been
@@ -1505,7 +1567,7 @@ bool QStabilizer::ForceM(bitLenInt t, bool result, bool doForce, bool doApply)
                 }
             }
             const AmplitudeEntry entry = getBasisAmp(nrm);
-            const complex oAmp = GetAmplitude(entry.permutation);
+            const complex oAmp = clone->GetAmplitude(entry.permutation);
             if (norm(oAmp) > FP_NORM_EPSILON) {
                 SetPhaseOffset(phaseOffset + std::arg(oAmp) - std::arg(entry.amplitude));
                 return result;
@@ -1627,56 +1689,7 @@ bool QStabilizer::CanDecomposeDispose(const bitLenInt start, const bitLenInt len
 
     Finish();
 
-    // We want to have the maximum number of 0 cross terms possible.
-    gaussian();
-
-    const bitLenInt end = start + length;
-
-    for (bitLenInt i = 0U; i < start; ++i) {
-        const bitLenInt i2 = i + qubitCount;
-        const BoolVector& xi = x[i];
-        const BoolVector& zi = z[i];
-        const BoolVector& xi2 = x[i2];
-        const BoolVector& zi2 = z[i2];
-        for (bitLenInt j = start; j < end; ++j) {
-            if (xi[j] || zi[j] || xi2[j] || zi2[j]) {
-                return false;
-            }
-        }
-    }
-
-    for (bitLenInt i = end; i < qubitCount; ++i) {
-        const bitLenInt i2 = i + qubitCount;
-        const BoolVector& xi = x[i];
-        const BoolVector& zi = z[i];
-        const BoolVector& xi2 = x[i2];
-        const BoolVector& zi2 = z[i2];
-        for (bitLenInt j = start; j < end; ++j) {
-            if (xi[j] || zi[j] || xi2[j] || zi2[j]) {
-                return false;
-            }
-        }
-    }
-
-    for (bitLenInt i = start; i < end; ++i) {
-        const bitLenInt i2 = i + qubitCount;
-        const BoolVector& xi = x[i];
-        const BoolVector& zi = z[i];
-        const BoolVector& xi2 = x[i2];
-        const BoolVector& zi2 = z[i2];
-        for (bitLenInt j = 0U; j < start; ++j) {
-            if (xi[j] || zi[j] || xi2[j] || zi2[j]) {
-                return false;
-            }
-        }
-        for (bitLenInt j = end; j < qubitCount; ++j) {
-            if (xi[j] || zi[j] || xi2[j] || zi2[j]) {
-                return false;
-            }
-        }
-    }
-
-    return true;
+    return SplitGenerators(start, length);
 }
 
 void QStabilizer::DecomposeDispose(const bitLenInt start, const bitLenInt length, QStabilizerPtr dest)
@@ -1694,14 +1707,11 @@ void QStabilizer::DecomposeDispose(const bitLenInt start, const bitLenInt length
     }
     Finish();
 
-    const AmplitudeEntry ampEntry = (randGlobalPhase || dest) ? AmplitudeEntry(ZERO_BCI, ONE_CMPLX) : GetAnyAmplitude();
-
-    // We want to have the maximum number of 0 cross terms possible.
-    gaussian();
+    const AmplitudeEntry ampEntry = randGlobalPhase ? AmplitudeEntry(ZERO_BCI, ONE_CMPLX) : GetAnyAmplitude();
 
-    // We assume that the bits to "decompose" the representation of already have 0 cross-terms in their generators
-    // outside inter- "dest" cross terms. (Usually, we're "decomposing" the representation of a just-measured single
-    // qubit.)
+    // We assume that the bits to "decompose" are separable. This leaves 0 cross-terms in their generators outside
+    // inter- "dest" cross terms.
+    SplitGenerators(start, length);
 
     const bitCapInt oMaxQMask = pow2Mask(qubitCount);
     const bitLenInt end = start + length;
@@ -1748,7 +1758,7 @@ void QStabilizer::DecomposeDispose(const bitLenInt start, const bitLenInt length
         zi.erase(zi.begin() + start, zi.begin() + end);
     }
 
-    if (randGlobalPhase || dest) {
+    if (randGlobalPhase) {
         return;
     }
 
@@ -1756,6 +1766,10 @@ void QStabilizer::DecomposeDispose(const bitLenInt start, const bitLenInt length
     const bitCapInt endMask = oMaxQMask ^ pow2Mask(start + length);
     const bitCapInt nPerm = (ampEntry.permutation & startMask) | ((ampEntry.permutation & endMask) >> length);
 
+    if (dest) {
+        const bitCapInt dPerm = (ampEntry.permutation >> start) & pow2Mask(length);
+        SetPhaseOffset(phaseOffset - std::arg(dest->GetAmplitude(dPerm)));
+    }
     SetPhaseOffset(phaseOffset + std::arg(ampEntry.amplitude) - std::arg(GetAmplitude(nPerm)));
 }
 
diff --git a/src/qunit.cpp b/src/qunit.cpp
index f54aab2..2ba93a8 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -1405,6 +1405,7 @@ bool QUnit::ForceM(bitLenInt qubit, bool res, bool doForce, bool doApply)
     QEngineShard& shard = shards[qubit];
 
     bool result;
+    complex phase = GetNonunitaryPhase();
     if (!shard.unit) {
         real1_f prob = norm(shard.amp1);
         if (doForce) {
@@ -1416,6 +1417,10 @@ bool QUnit::ForceM(bitLenInt qubit, bool res, bool doForce, bool doApply)
         } else {
             result = (Rand() <= prob);
         }
+        const complex amp = result ? shard.amp1 : shard.amp0;
+        if (!randGlobalPhase && (norm(amp) > FP_NORM_EPSILON)) {
+            phase = amp / (real1)abs(amp);
+        }
     } else {
         // ALWAYS collapse unit before Decompose()/Dispose(), for maximum consistency.
         result = shard.unit->ForceM(shard.mapped, res, doForce, doApply);
@@ -1429,8 +1434,8 @@ bool QUnit::ForceM(bitLenInt qubit, bool res, bool doForce, bool doApply)
 
     shard.isProbDirty = false;
     shard.isPhaseDirty = false;
-    shard.amp0 = result ? ZERO_CMPLX : GetNonunitaryPhase();
-    shard.amp1 = result ? GetNonunitaryPhase() : ZERO_CMPLX;
+    shard.amp0 = result ? ZERO_CMPLX : phase;
+    shard.amp1 = result ? phase : ZERO_CMPLX;
 
     if (shard.GetQubitCount() == 1U) {
         shard.unit = nullptr;
-- 
2.43.0


From ede55b30d80dd87dd16e4cb1f602eeda6f822550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:39 +0000
Subject: [PATCH 22/49] fix: QUnitClifford gates on separable targets,
 ProbMask, decomposition mapping

A controlled gate whose control is an eigenstate was applied to the top-level target
index of a shared unit, ProbMask added instead of multiplying over units, Decompose
kept the source unit's offsets, and shot pairing was biased.
---
 include/qunitclifford.hpp | 6 ++++--
 src/qunitclifford.cpp     | 9 +++++----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/qunitclifford.hpp b/include/qunitclifford.hpp
index 2c78c77..995227e 100644
--- a/include/qunitclifford.hpp
+++ b/include/qunitclifford.hpp
@@ -106,12 +106,14 @@ protected:
         const real1_f p = Prob(control);
         if (p < (ONE_R1_F / 4)) {
             if (isAnti) {
-                fn(shards[target].unit, target, mtrx);
+                fn(shards[target].unit, shards[target].mapped, mtrx);
+                CombinePhaseOffsets(shards[target].unit);
             }
             return;
         } else if (p > (3 * ONE_R1_F / 4)) {
             if (!isAnti) {
-                fn(shards[target].unit, target, mtrx);
+                fn(shards[target].unit, shards[target].mapped, mtrx);
+                CombinePhaseOffsets(shards[target].unit);
             }
             return;
         }
diff --git a/src/qunitclifford.cpp b/src/qunitclifford.cpp
index 19c820b..2e05439 100644
--- a/src/qunitclifford.cpp
+++ b/src/qunitclifford.cpp
@@ -172,12 +172,12 @@ real1_f QUnitClifford::ProbMask(const bitCapInt& mask, const bitCapInt& perm)
         }
     }
 
-    real1 expectation = ZERO_R1;
+    real1 prob = ONE_R1;
     for (const auto& p : maskMap) {
-        expectation += (real1)p.first->ProbMask(p.second, permMap[p.first]);
+        prob *= (real1)p.first->ProbMask(p.second, permMap[p.first]);
     }
 
-    return (real1_f)expectation;
+    return (real1_f)prob;
 }
 
 void QUnitClifford::SetPermutation(const bitCapInt& perm, const complex& phaseFac)
@@ -252,6 +252,7 @@ void QUnitClifford::Detach(bitLenInt start, bitLenInt length, QUnitCliffordPtr d
 
         if (dest) {
             dest->shards[i] = shard;
+            dest->shards[i].mapped -= shards[decomposedUnits[unit]].mapped;
         }
     }
 
@@ -681,7 +682,7 @@ std::map<bitCapInt, int> QUnitClifford::MultiShotMeasureMask(const std::vector<b
 
                 auto pickIter = topLevelResults.begin();
                 int count = pickIter->second;
-                while (pick > count) {
+                while (pick >= count) {
                     ++pickIter;
                     count += pickIter->second;
                 }
-- 
2.43.0


From 21e11b7fe9806426e0240418cf44c3ffd9cd73c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:08 +0000
Subject: [PATCH 23/49] fix: initialise QUnit's rounding threshold

---
 src/qunit.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index 2ba93a8..bb11f50 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -88,6 +88,7 @@ QUnit::QUnit(std::vector<QInterfaceEngine> eng, bitLenInt qBitCount, const bitCa
     , isSinglePage(false)
     , thresholdQubits(qubitThreshold)
     , separabilityThreshold(sep_thresh)
+    , roundingThreshold(FP_NORM_EPSILON_F)
     , logFidelity(0.0)
     , devID(deviceID)
     , phaseFactor(phaseFac)
-- 
2.43.0


From eae3a67adac2ab0d8e32a1383b6eb39675e95a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:34 +0000
Subject: [PATCH 24/49] fix: printing a nonzero wide integer never terminated

---
 src/common/functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/functions.cpp b/src/common/functions.cpp
index 8ae0f9f..be5bb88 100644
--- a/src/common/functions.cpp
+++ b/src/common/functions.cpp
@@ -317,7 +317,7 @@ std::ostream& operator<<(std::ostream& os, const bitCapInt& b)
     // Calculate the base-10 digits, from lowest to highest.
     std::vector<std::string> digits;
     bitCapInt _b = b;
-    while (bi_compare_0(b) != 0) {
+    while (bi_compare_0(_b) != 0) {
         bitCapInt quo;
 #ifdef __SIZEOF_INT128__
         uint64_t rem;
-- 
2.43.0


From a32adf312d4e0ef437a5729200511099a15e6f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:45 +0000
Subject: [PATCH 25/49] fix: BigInteger addition, subtraction, decrement, word
 shift, multiplication and division

---
 include/common/big_integer.hpp | 32 ++++++++++++++------------------
 src/common/big_integer.cpp     | 11 ++++-------
 2 files changed, 18 insertions(+), 25 deletions(-)

diff --git a/include/common/big_integer.hpp b/include/common/big_integer.hpp
index 2aee61f..167fe6e 100644
--- a/include/common/big_integer.hpp
+++ b/include/common/big_integer.hpp
@@ -165,12 +165,12 @@ inline int bi_compare_1(const BigInteger& left)
 inline BigInteger operator+(const BigInteger& left, const BigInteger& right)
 {
     BigInteger result;
-    result.bits[0U] = 0U;
-    for (int i = 0; i < BIG_INTEGER_MAX_WORD_INDEX; ++i) {
-        result.bits[i] += left.bits[i] + right.bits[i];
-        result.bits[i + 1] = (result.bits[i] < left.bits[i]) ? 1 : 0;
+    BIG_INTEGER_WORD carry = 0U;
+    for (int i = 0; i < BIG_INTEGER_WORD_SIZE; ++i) {
+        const BIG_INTEGER_WORD sum = left.bits[i] + right.bits[i];
+        result.bits[i] = sum + carry;
+        carry = ((sum < left.bits[i]) || (result.bits[i] < sum)) ? 1U : 0U;
     }
-    result.bits[BIG_INTEGER_MAX_WORD_INDEX] += right.bits[BIG_INTEGER_MAX_WORD_INDEX];
     return result;
 }
 
@@ -190,12 +190,12 @@ inline void bi_add_ip(BigInteger* left, const BigInteger& right)
 inline BigInteger operator-(const BigInteger& left, const BigInteger& right)
 {
     BigInteger result;
-    result.bits[0U] = 0U;
-    for (int i = 0; i < BIG_INTEGER_MAX_WORD_INDEX; ++i) {
-        result.bits[i] += left.bits[i] - right.bits[i];
-        result.bits[i + 1] = (result.bits[i] > left.bits[i]) ? -1 : 0;
+    BIG_INTEGER_WORD borrow = 0U;
+    for (int i = 0; i < BIG_INTEGER_WORD_SIZE; ++i) {
+        const BIG_INTEGER_WORD diff = left.bits[i] - right.bits[i];
+        result.bits[i] = diff - borrow;
+        borrow = ((diff > left.bits[i]) || (result.bits[i] > diff)) ? 1U : 0U;
     }
-    result.bits[BIG_INTEGER_MAX_WORD_INDEX] -= right.bits[BIG_INTEGER_MAX_WORD_INDEX];
     return result;
 }
 
@@ -238,7 +238,7 @@ inline void bi_decrement(BigInteger* pBigInt, const BIG_INTEGER_WORD& value)
         return;
     }
 
-    for (int i = 0; i < BIG_INTEGER_WORD_SIZE; i++) {
+    for (int i = 1; i < BIG_INTEGER_WORD_SIZE; i++) {
         temp = pBigInt->bits[i]--;
         if (temp >= pBigInt->bits[i]) {
             break;
@@ -272,17 +272,13 @@ inline BigInteger bi_lshift_word(const BigInteger& left, BIG_INTEGER_WORD rightM
 
 inline void bi_lshift_word_ip(BigInteger* left, BIG_INTEGER_WORD rightMult)
 {
-    rightMult &= 63U;
-
     if (!rightMult) {
         return;
     }
 
-    for (int i = rightMult; i < BIG_INTEGER_WORD_SIZE; ++i) {
-        left->bits[i] = left->bits[i - rightMult];
-    }
-    for (BIG_INTEGER_WORD i = 0U; i < rightMult; ++i) {
-        left->bits[i] = 0U;
+    // Work from the highest word down, so that no word is overwritten before it is read.
+    for (int i = BIG_INTEGER_MAX_WORD_INDEX; i >= 0; --i) {
+        left->bits[i] = ((BIG_INTEGER_WORD)i < rightMult) ? (BIG_INTEGER_WORD)0U : left->bits[i - (int)rightMult];
     }
 }
 
diff --git a/src/common/big_integer.cpp b/src/common/big_integer.cpp
index 2155e6b..48a7670 100644
--- a/src/common/big_integer.cpp
+++ b/src/common/big_integer.cpp
@@ -60,18 +60,14 @@ BigInteger operator*(const BigInteger& left, BIG_INTEGER_HALF_WORD right)
 // Complexity - O(log of bits)
 BigInteger operator*(const BigInteger& left, const BigInteger& right)
 {
-    int rightLog2 = bi_log2(right);
-
-    if (rightLog2 == 0) {
+    if (bi_compare_1(right) == 0) {
         // right == 1
         return left;
     }
 
-    int maxI = BIG_INTEGER_BITS - rightLog2;
-
     BigInteger result;
     bi_set_0(&result);
-    for (int i = 0; i < maxI; ++i) {
+    for (int i = 0; i < (int)BIG_INTEGER_BITS; ++i) {
         BigInteger partMul = right << i;
         if (bi_compare_0(partMul) == 0) {
             break;
@@ -280,7 +276,8 @@ void bi_div_mod(const BigInteger& left, const BigInteger& right, BigInteger* quo
     BigInteger bi1 = 1U;
     int rightLog2 = bi_log2(right);
     BigInteger rightTest = bi1 << rightLog2;
-    if (bi_compare(right, rightTest) < 0) {
+    if (bi_compare(right, rightTest) > 0) {
+        // Round up, so that no partial subtraction below exceeds the remainder.
         ++rightLog2;
     }
     BigInteger rem;
-- 
2.43.0


From 879bf58016597925d4498e64a643015cd82004fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:38 +0000
Subject: [PATCH 26/49] fix: QCircuit swap gates, gate objects shared between
 circuits, qubit count without collapse

---
 include/qcircuit.hpp | 41 +++++++++++++++++++++++++++++++++++++++--
 src/qcircuit.cpp     | 17 ++++++++++-------
 2 files changed, 49 insertions(+), 9 deletions(-)

diff --git a/include/qcircuit.hpp b/include/qcircuit.hpp
index 6faa580..26bde72 100644
--- a/include/qcircuit.hpp
+++ b/include/qcircuit.hpp
@@ -113,6 +113,11 @@ struct QCircuitGate {
         }
     }
 
+    /**
+     * Am I a `Swap` gate? (`Swap` gates store their second qubit as a "control," and they have no payloads.)
+     */
+    bool IsSwap() { return payloads.empty() && !controls.empty(); }
+
     QCircuitGatePtr Clone() { return std::make_shared<QCircuitGate>(target, payloads, controls); }
 
     /**
@@ -120,7 +125,7 @@ struct QCircuitGate {
      */
     bool CanCombine(QCircuitGatePtr other, bool clifford = false)
     {
-        if (target != other->target) {
+        if ((target != other->target) || IsSwap() || other->IsSwap()) {
             return false;
         }
 
@@ -336,6 +341,10 @@ struct QCircuitGate {
      */
     bool IsIdentity()
     {
+        if (IsSwap()) {
+            return false;
+        }
+
         const bitCapInt controlPow = pow2(controls.size());
         if (payloads.size() == controlPow) {
             const complex* refP = payloads.begin()->second.get();
@@ -371,6 +380,10 @@ struct QCircuitGate {
      */
     bool IsPhase()
     {
+        if (IsSwap()) {
+            return false;
+        }
+
         for (const auto& payload : payloads) {
             complex* p = payload.second.get();
             if ((norm(p[1U]) > FP_NORM_EPSILON) || (norm(p[2U]) > FP_NORM_EPSILON)) {
@@ -386,6 +399,10 @@ struct QCircuitGate {
      */
     bool IsInvert()
     {
+        if (IsSwap()) {
+            return false;
+        }
+
         for (const auto& payload : payloads) {
             complex* p = payload.second.get();
             if ((norm(p[0U]) > FP_NORM_EPSILON) || (norm(p[3U]) > FP_NORM_EPSILON)) {
@@ -401,6 +418,10 @@ struct QCircuitGate {
      */
     bool IsPhaseInvert()
     {
+        if (IsSwap()) {
+            return false;
+        }
+
         for (const auto& payload : payloads) {
             complex* p = payload.second.get();
             if (((norm(p[0]) > FP_NORM_EPSILON) || (norm(p[3]) > FP_NORM_EPSILON)) &&
@@ -491,6 +512,14 @@ struct QCircuitGate {
      */
     bool CanPass(QCircuitGatePtr other)
     {
+        if (IsSwap() || other->IsSwap()) {
+            std::set<bitLenInt> qubits(controls);
+            qubits.insert(target);
+            return (qubits.find(other->target) == qubits.end()) &&
+                std::none_of(other->controls.begin(), other->controls.end(),
+                    [&qubits](const bitLenInt& c) { return qubits.find(c) != qubits.end(); });
+        }
+
         const std::set<bitLenInt>::iterator c = other->controls.find(target);
         if (c == other->controls.end()) {
             if (controls.find(other->target) != controls.end()) {
@@ -595,6 +624,11 @@ struct QCircuitGate {
 
         payloads = nPayloads;
         controls.erase(c);
+
+        if (payloads.empty()) {
+            // No payload is left, so this is the identity operator, (not a `Swap` gate).
+            Clear();
+        }
     }
 };
 
@@ -708,7 +742,10 @@ public:
         if (circuit->qubitCount > qubitCount) {
             qubitCount = circuit->qubitCount;
         }
-        gates.insert(gates.end(), circuit->gates.begin(), circuit->gates.end());
+        const std::list<QCircuitGatePtr> nGates = circuit->gates;
+        for (const QCircuitGatePtr& gate : nGates) {
+            gates.push_back(gate->Clone());
+        }
     }
 
     /**
diff --git a/src/qcircuit.cpp b/src/qcircuit.cpp
index 65c619a..713618e 100644
--- a/src/qcircuit.cpp
+++ b/src/qcircuit.cpp
@@ -100,16 +100,13 @@ std::istream& operator>>(std::istream& is, QCircuitPtr& c)
 
 bool QCircuit::AppendGate(QCircuitGatePtr nGate)
 {
-    if (!isCollapsed) {
-        gates.push_back(nGate);
-
-        return false;
-    }
-
-    if (nGate->IsIdentity()) {
+    if (isCollapsed && nGate->IsIdentity()) {
         return true;
     }
 
+    // The gate is modified as it combines and commutes, so we don't share it with the caller.
+    nGate = nGate->Clone();
+
     if ((nGate->target + 1U) > qubitCount) {
         qubitCount = nGate->target + 1U;
     }
@@ -120,6 +117,12 @@ bool QCircuit::AppendGate(QCircuitGatePtr nGate)
         }
     }
 
+    if (!isCollapsed) {
+        gates.push_back(nGate);
+
+        return false;
+    }
+
     std::set<bitLenInt> nQubits(nGate->controls);
     nQubits.insert(nGate->target);
     bool didCommute = false;
-- 
2.43.0


From 82741a4c7e159211ead6e77c9810c9f8a566fc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:29 +0000
Subject: [PATCH 27/49] fix: QInterfaceNoisy clone, qubit counts in Compose and
 Allocate, Decompose by length

---
 include/qinterface_noisy.hpp | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/include/qinterface_noisy.hpp b/include/qinterface_noisy.hpp
index d213da4..252f6cf 100644
--- a/include/qinterface_noisy.hpp
+++ b/include/qinterface_noisy.hpp
@@ -80,7 +80,9 @@ public:
         bitLenInt qubitThreshold = 0U, real1_f separation_thresh = _qrack_qunit_sep_thresh);
 
     QInterfaceNoisy(QInterfaceNoisy* o)
-        : noiseParam(o->noiseParam)
+        : QInterface(*o)
+        , logFidelity(o->logFidelity)
+        , noiseParam(o->noiseParam)
         , engine(o->engine)
         , engines(o->engines)
     {
@@ -114,20 +116,25 @@ public:
 
     bitLenInt Allocate(bitLenInt start, bitLenInt length)
     {
+        const bitLenInt toRet = engine->Allocate(start, length);
         SetQubitCount(qubitCount + length);
-        return engine->Allocate(start, length);
+        return toRet;
     }
     using QInterface::Compose;
     bitLenInt Compose(QInterfaceNoisyPtr toCopy)
     {
-        SetQubitCount(qubitCount + toCopy->qubitCount);
-        return engine->Compose(toCopy->engine);
+        const bitLenInt nQubitCount = qubitCount + toCopy->qubitCount;
+        const bitLenInt toRet = engine->Compose(toCopy->engine);
+        SetQubitCount(nQubitCount);
+        return toRet;
     }
     bitLenInt Compose(QInterfacePtr toCopy) { return Compose(std::dynamic_pointer_cast<QInterfaceNoisy>(toCopy)); }
     bitLenInt Compose(QInterfaceNoisyPtr toCopy, bitLenInt start)
     {
-        SetQubitCount(qubitCount + toCopy->qubitCount);
-        return engine->Compose(toCopy->engine, start);
+        const bitLenInt nQubitCount = qubitCount + toCopy->qubitCount;
+        const bitLenInt toRet = engine->Compose(toCopy->engine, start);
+        SetQubitCount(nQubitCount);
+        return toRet;
     }
     bitLenInt Compose(QInterfacePtr toCopy, bitLenInt start)
     {
@@ -135,8 +142,10 @@ public:
     }
     bitLenInt ComposeNoClone(QInterfaceNoisyPtr toCopy)
     {
-        SetQubitCount(qubitCount + toCopy->qubitCount);
-        return engine->ComposeNoClone(toCopy->engine);
+        const bitLenInt nQubitCount = qubitCount + toCopy->qubitCount;
+        const bitLenInt toRet = engine->ComposeNoClone(toCopy->engine);
+        SetQubitCount(nQubitCount);
+        return toRet;
     }
     bitLenInt ComposeNoClone(QInterfacePtr toCopy)
     {
@@ -149,8 +158,10 @@ public:
     }
     QInterfacePtr Decompose(bitLenInt start, bitLenInt length)
     {
-        QInterfaceNoisyPtr dest = std::make_shared<QInterfaceNoisy>(this);
-        engine->Decompose(start, dest->engine);
+        QInterfaceNoisyPtr dest = std::make_shared<QInterfaceNoisy>(engines, length, ZERO_BCI, rand_generator);
+        dest->noiseParam = noiseParam;
+        dest->engine = engine->Decompose(start, length);
+        SetQubitCount(qubitCount - length);
 
         return dest;
     }
-- 
2.43.0


From e6d1ff7ba992a907c62948905f46e1a41c023fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:29 +0000
Subject: [PATCH 28/49] fix: QNeuron assignment across sizes, angle clamping of
 non-periodic activations, start probability after measurement

---
 include/qneuron.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/qneuron.hpp b/include/qneuron.hpp
index 02cde40..3fdb297 100644
--- a/include/qneuron.hpp
+++ b/include/qneuron.hpp
@@ -57,8 +57,13 @@ protected:
 
     static real1_f applyLeakyRelu(real1_f angle, real1_f alpha) { return std::max(alpha * angle, angle); }
 
-    static real1_f clampAngle(real1_f angle)
+    real1_f clampAngle(real1_f angle)
     {
+        if (activationFn != Sigmoid) {
+            // The other activation functions are not periodic.
+            return angle;
+        }
+
         // From Tiama, (OpenAI ChatGPT instance)
         angle = fmod(angle, 4 * PI_R1);
         if (angle <= -2 * PI_R1) {
@@ -106,6 +111,10 @@ public:
     {
         qReg = toCopy.qReg;
         inputIndices = toCopy.inputIndices;
+        if (inputPower != toCopy.inputPower) {
+            inputPower = toCopy.inputPower;
+            angles.reset(new real1[inputPower]());
+        }
         std::copy(toCopy.angles.get(), toCopy.angles.get() + toCopy.inputPower, angles.get());
         outputIndex = toCopy.outputIndex;
         activationFn = toCopy.activationFn;
@@ -312,6 +321,12 @@ public:
             }
         }
 
+        // Measurement might have changed the prediction.
+        startProb = LearnCycle(expected);
+        if ((ONE_R1 - startProb) <= tolerance) {
+            return;
+        }
+
         LearnInternal(expected, eta, perm, startProb);
     }
 
-- 
2.43.0


From 5ece18f8436cfbacdccf69ac3d003bc96ddb76af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:42 +0000
Subject: [PATCH 29/49] fix: C API handle bounds, failed initialization, and
 clones keep the caller's qubit ids

---
 src/pinvoke_api.cpp | 97 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 74 insertions(+), 23 deletions(-)

diff --git a/src/pinvoke_api.cpp b/src/pinvoke_api.cpp
index d31c97a..ebd33c6 100644
--- a/src/pinvoke_api.cpp
+++ b/src/pinvoke_api.cpp
@@ -51,7 +51,7 @@
 #endif
 
 #define SIMULATOR_LOCK_GUARD_VOID(sid)                                                                                 \
-    if (sid > simulators.size()) {                                                                                     \
+    if (sid >= simulators.size()) {                                                                                    \
         std::cout << "Invalid argument: simulator ID not found!" << std::endl;                                         \
         metaError = 2;                                                                                                 \
         return;                                                                                                        \
@@ -63,7 +63,7 @@
     }
 
 #define SIMULATOR_LOCK_GUARD_TYPED(sid, def)                                                                           \
-    if (sid > simulators.size()) {                                                                                     \
+    if (sid >= simulators.size()) {                                                                                    \
         std::cout << "Invalid argument: simulator ID not found!" << std::endl;                                         \
         metaError = 2;                                                                                                 \
         return def;                                                                                                    \
@@ -108,7 +108,7 @@
 #endif
 
 #define NEURON_LOCK_GUARD_VOID(nid)                                                                                    \
-    if (nid > neurons.size()) {                                                                                        \
+    if (nid >= neurons.size()) {                                                                                       \
         std::cout << "Invalid argument: neuron ID not found!" << std::endl;                                            \
         metaError = 2;                                                                                                 \
         return;                                                                                                        \
@@ -121,7 +121,7 @@
     }
 
 #define NEURON_LOCK_GUARD_TYPED(nid, def)                                                                              \
-    if (nid > neurons.size()) {                                                                                        \
+    if (nid >= neurons.size()) {                                                                                       \
         std::cout << "Invalid argument: neuron ID not found!" << std::endl;                                            \
         metaError = 2;                                                                                                 \
         return def;                                                                                                    \
@@ -158,7 +158,7 @@
 #endif
 
 #define CIRCUIT_LOCK_GUARD_TYPED(cid, def)                                                                             \
-    if (cid > circuits.size()) {                                                                                       \
+    if (cid >= circuits.size()) {                                                                                      \
         std::cout << "Invalid argument: circuit ID not found!" << std::endl;                                           \
         metaError = 2;                                                                                                 \
         return def;                                                                                                    \
@@ -171,7 +171,7 @@
     }
 
 #define CIRCUIT_LOCK_GUARD_VOID(cid)                                                                                   \
-    if (cid > circuits.size()) {                                                                                       \
+    if (cid >= circuits.size()) {                                                                                      \
         std::cout << "Invalid argument: neuron ID not found!" << std::endl;                                            \
         metaError = 2;                                                                                                 \
         return;                                                                                                        \
@@ -187,12 +187,12 @@
 
 #if CPP_STD > 13
 #define CIRCUIT_AND_SIMULATOR_LOCK_GUARD_VOID(cid, sid)                                                                \
-    if (sid > simulators.size()) {                                                                                     \
+    if (sid >= simulators.size()) {                                                                                    \
         std::cout << "Invalid argument: simulator ID not found!" << std::endl;                                         \
         metaError = 2;                                                                                                 \
         return;                                                                                                        \
     }                                                                                                                  \
-    if (cid > circuits.size()) {                                                                                       \
+    if (cid >= circuits.size()) {                                                                                      \
         std::cout << "Invalid argument: neuron ID not found!" << std::endl;                                            \
         metaError = 2;                                                                                                 \
         return;                                                                                                        \
@@ -218,12 +218,12 @@
     }
 #else
 #define CIRCUIT_AND_SIMULATOR_LOCK_GUARD_VOID(cid, sid)                                                                \
-    if (sid > simulators.size()) {                                                                                     \
+    if (sid >= simulators.size()) {                                                                                    \
         std::cout << "Invalid argument: simulator ID not found!" << std::endl;                                         \
         metaError = 2;                                                                                                 \
         return;                                                                                                        \
     }                                                                                                                  \
-    if (cid > circuits.size()) {                                                                                       \
+    if (cid >= circuits.size()) {                                                                                      \
         std::cout << "Invalid argument: neuron ID not found!" << std::endl;                                            \
         metaError = 2;                                                                                                 \
         return;                                                                                                        \
@@ -613,6 +613,10 @@ MICROSOFT_QUANTUM_DECL int get_error(_In_ uintq sid)
         return 2;
     }
 
+    if (sid >= simulatorErrors.size()) {
+        return 2;
+    }
+
     return simulatorErrors[sid];
 }
 
@@ -710,7 +714,7 @@ MICROSOFT_QUANTUM_DECL uintq init_count_type(_In_ uintq q, _In_ bool tn, _In_ bo
         simulatorErrors[sid] = isSuccess ? 0 : 1;
     }
 
-    if (!q) {
+    if (!simulator) {
         return sid;
     }
 
@@ -764,7 +768,7 @@ MICROSOFT_QUANTUM_DECL uintq init_count(_In_ uintq q, _In_ bool hp)
         simulatorErrors[sid] = isSuccess ? 0 : 1;
     }
 
-    if (!q) {
+    if (!simulator) {
         return sid;
     }
 
@@ -835,7 +839,7 @@ MICROSOFT_QUANTUM_DECL uintq init_count_pager(_In_ uintq q, _In_ bool hp)
         simulatorErrors[sid] = isSuccess ? 0 : 1;
     }
 
-    if (!q) {
+    if (!simulator) {
         return sid;
     }
 
@@ -851,7 +855,7 @@ MICROSOFT_QUANTUM_DECL uintq init_clone(_In_ uintq sid)
 {
     META_LOCK_GUARD()
 
-    if (sid > simulators.size()) {
+    if (sid >= simulators.size()) {
         std::cout << "Invalid argument: simulator ID not found!" << std::endl;
         metaError = 2;
 
@@ -875,7 +879,9 @@ MICROSOFT_QUANTUM_DECL uintq init_clone(_In_ uintq sid)
     bool isSuccess = true;
     QInterfacePtr simulator;
     try {
-        simulator = oSimulator->Clone();
+        if (oSimulator) {
+            simulator = oSimulator->Clone();
+        }
     } catch (const std::exception& ex) {
         std::cout << ex.what() << std::endl;
         isSuccess = false;
@@ -895,7 +901,10 @@ MICROSOFT_QUANTUM_DECL uintq init_clone(_In_ uintq sid)
         simulatorErrors[nsid] = isSuccess ? 0 : 1;
     }
 
-    FillSimShards(simulator);
+    if (simulator) {
+        // The clone's qubits keep the caller's qubit IDs.
+        shards[simulator.get()] = shards[oSimulator.get()];
+    }
 
     return nsid;
 }
@@ -904,7 +913,7 @@ uintq init_clone_size(uintq sid, uintq n)
 {
     META_LOCK_GUARD()
 
-    if (sid > simulators.size()) {
+    if (sid >= simulators.size()) {
         std::cout << "Invalid argument: simulator ID not found!" << std::endl;
         metaError = 2;
 
@@ -949,7 +958,9 @@ uintq init_clone_size(uintq sid, uintq n)
         simulatorErrors[nsid] = isSuccess ? 0 : 1;
     }
 
-    FillSimShards(simulator);
+    if (simulator) {
+        FillSimShards(simulator);
+    }
 
     return nsid;
 }
@@ -960,6 +971,14 @@ uintq init_clone_size(uintq sid, uintq n)
 MICROSOFT_QUANTUM_DECL void destroy(_In_ uintq sid)
 {
     META_LOCK_GUARD()
+
+    if (sid >= simulators.size()) {
+        std::cout << "Invalid argument: simulator ID not found!" << std::endl;
+        metaError = 2;
+
+        return;
+    }
+
     shards.erase(simulators[sid].get());
     simulatorMutexes.erase(simulators[sid].get());
     simulators[sid] = nullptr;
@@ -1286,7 +1305,7 @@ MICROSOFT_QUANTUM_DECL void allocateQubit(_In_ uintq sid, _In_ uintq qid)
 {
     META_LOCK_GUARD()
 
-    if (sid > simulators.size()) {
+    if (sid >= simulators.size()) {
         std::cout << "Invalid argument: simulator ID not found!" << std::endl;
         metaError = 2;
 
@@ -1327,7 +1346,7 @@ MICROSOFT_QUANTUM_DECL bool release(_In_ uintq sid, _In_ uintq q)
 {
     META_LOCK_GUARD()
 
-    if (sid > simulators.size()) {
+    if (sid >= simulators.size()) {
         std::cout << "Invalid argument: simulator ID not found!" << std::endl;
         metaError = 2;
 
@@ -3473,7 +3492,7 @@ MICROSOFT_QUANTUM_DECL uintq init_qneuron(
 {
     META_LOCK_GUARD()
 
-    if (sid > simulators.size()) {
+    if (sid >= simulators.size()) {
         std::cout << "Invalid argument: simulator ID not found!" << std::endl;
         metaError = 2;
 
@@ -3527,7 +3546,7 @@ MICROSOFT_QUANTUM_DECL uintq clone_qneuron(_In_ uintq nid)
 {
     META_LOCK_GUARD()
 
-    if (nid > neurons.size()) {
+    if (nid >= neurons.size()) {
         std::cout << "Invalid argument: neuron ID not found!" << std::endl;
         metaError = 2;
 
@@ -3535,6 +3554,13 @@ MICROSOFT_QUANTUM_DECL uintq clone_qneuron(_In_ uintq nid)
     }
 
     QNeuronPtr neuron = neurons[nid];
+    if (!neuron) {
+        std::cout << "Invalid argument: neuron ID not found!" << std::endl;
+        metaError = 2;
+
+        return 0U;
+    }
+
     std::unique_ptr<const std::lock_guard<std::mutex>> neuronLock(
         new const std::lock_guard<std::mutex>(neuronMutexes[neuron.get()]));
 
@@ -3567,6 +3593,15 @@ MICROSOFT_QUANTUM_DECL uintq clone_qneuron(_In_ uintq nid)
 MICROSOFT_QUANTUM_DECL void destroy_qneuron(_In_ uintq nid)
 {
     META_LOCK_GUARD()
+
+    if (nid >= neurons.size()) {
+        std::cout << "Invalid argument: neuron ID not found!" << std::endl;
+        metaError = 2;
+
+        return;
+    }
+
+    neuronSimulators.erase(neurons[nid]);
     neuronMutexes.erase(neurons[nid].get());
     neurons[nid] = nullptr;
     neuronErrors[nid] = 0;
@@ -3718,7 +3753,7 @@ uintq _init_qcircuit_copy(uintq cid, bool isInverse, std::set<bitLenInt> q)
 {
     META_LOCK_GUARD()
 
-    if (cid > circuits.size()) {
+    if (cid >= circuits.size()) {
         std::cout << "Invalid argument: circuit ID not found!" << std::endl;
         metaError = 2;
 
@@ -3726,6 +3761,13 @@ uintq _init_qcircuit_copy(uintq cid, bool isInverse, std::set<bitLenInt> q)
     }
 
     QCircuitPtr circuit = circuits[cid];
+    if (!circuit) {
+        std::cout << "Invalid argument: circuit ID not found!" << std::endl;
+        metaError = 2;
+
+        return 0U;
+    }
+
     std::unique_ptr<const std::lock_guard<std::mutex>> circuitLock(
         new const std::lock_guard<std::mutex>(circuitMutexes[circuit.get()]));
 
@@ -3768,6 +3810,15 @@ MICROSOFT_QUANTUM_DECL uintq qcircuit_past_light_cone(_In_ uintq cid, _In_ uintq
 MICROSOFT_QUANTUM_DECL void destroy_qcircuit(_In_ uintq cid)
 {
     META_LOCK_GUARD()
+
+    if (cid >= circuits.size()) {
+        std::cout << "Invalid argument: circuit ID not found!" << std::endl;
+        metaError = 2;
+
+        return;
+    }
+
+    circuitStrings.erase(circuits[cid].get());
     circuitMutexes.erase(circuits[cid].get());
     circuits[cid] = nullptr;
     circuitReservations[cid] = false;
-- 
2.43.0


From 5c12e015e2823595fb87f1d15ef863c540c9a5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:46 +0000
Subject: [PATCH 30/49] fix: C API reports unknown qubit ids and unsupported
 calls instead of acting on qubit 255 or throwing through the C boundary

---
 src/pinvoke_api.cpp | 378 ++++++++++++++++++++++++++------------------
 1 file changed, 225 insertions(+), 153 deletions(-)

diff --git a/src/pinvoke_api.cpp b/src/pinvoke_api.cpp
index ebd33c6..3d539f3 100644
--- a/src/pinvoke_api.cpp
+++ b/src/pinvoke_api.cpp
@@ -249,11 +249,30 @@
     }
 #endif
 
-#define QALU(qReg) std::dynamic_pointer_cast<QAlu>(qReg)
-#define QPARITY(qReg) std::dynamic_pointer_cast<QParity>(qReg)
-
 using namespace Qrack;
 
+#if ENABLE_ALU
+QAluPtr QALU(QInterfacePtr qReg)
+{
+    QAluPtr toRet = std::dynamic_pointer_cast<QAlu>(qReg);
+    if (!toRet) {
+        throw std::domain_error("Simulator layer stack does not support QAlu methods!");
+    }
+
+    return toRet;
+}
+#endif
+
+QParityPtr QPARITY(QInterfacePtr qReg)
+{
+    QParityPtr toRet = std::dynamic_pointer_cast<QParity>(qReg);
+    if (!toRet) {
+        throw std::domain_error("Simulator layer stack does not support QParity methods!");
+    }
+
+    return toRet;
+}
+
 qrack_rand_gen_ptr randNumGen = std::make_shared<qrack_rand_gen>(time(0));
 std::mutex metaOperationMutex;
 int metaError = 0;
@@ -274,34 +293,16 @@ std::map<QCircuit*, std::mutex> circuitMutexes;
 std::vector<bool> circuitReservations;
 std::map<QCircuit*, std::string> circuitStrings;
 
-bitLenInt GetSimShardId(QInterfacePtr simulator, bitLenInt i)
+bitLenInt GetSimShardId(QInterfacePtr simulator, uintq i)
 {
     const auto& simShardsIt = shards.find(simulator.get());
     if (simShardsIt == shards.end()) {
-        const auto& simIt = std::find(simulators.begin(), simulators.end(), simulator);
-        if (simIt == simulators.end()) {
-            metaError = 1;
-            std::cout << "Could not find simulator ID!" << std::endl;
-        } else {
-            simulatorErrors[std::distance(simulators.begin(), simIt)] = 1;
-            std::cout << "Qubit ID is out-of-bounds!" << std::endl;
-        }
-
-        return -1;
+        throw std::invalid_argument("Could not find simulator ID!");
     }
 
     const auto& shardIt = simShardsIt->second.find(i);
     if (shardIt == simShardsIt->second.end()) {
-        const auto& simIt = std::find(simulators.begin(), simulators.end(), simulator);
-        if (simIt == simulators.end()) {
-            metaError = 1;
-            std::cout << "Could not find simulator ID!" << std::endl;
-        } else {
-            simulatorErrors[std::distance(simulators.begin(), simIt)] = 1;
-            std::cout << "Qubit ID is out-of-bounds!" << std::endl;
-        }
-
-        return -1;
+        throw std::invalid_argument("Qubit ID is out-of-bounds!");
     }
 
     return shardIt->second;
@@ -318,6 +319,11 @@ void FillSimShards(QInterfacePtr simulator)
 
 void TransformPauliBasis(QInterfacePtr simulator, uintq len, int* bases, uintq* qubitIds)
 {
+    // Check all IDs before the first gate.
+    for (uintq i = 0U; i < len; ++i) {
+        GetSimShardId(simulator, qubitIds[i]);
+    }
+
     for (uintq i = 0U; i < len; ++i) {
         switch (bases[i]) {
         case PauliX:
@@ -354,7 +360,7 @@ void RevertPauliBasis(QInterfacePtr simulator, uintq len, int* bases, uintq* qub
     }
 }
 
-void removeIdentities(std::vector<int>* b, std::vector<bitLenInt>* qs)
+void removeIdentities(std::vector<int>* b, std::vector<uintq>* qs)
 {
     uintq i = 0U;
     while (i != b->size()) {
@@ -1208,11 +1214,11 @@ MICROSOFT_QUANTUM_DECL std::size_t random_choice(_In_ uintq sid, _In_ std::size_
 void _PhaseMask(uintq sid, double lambda, uintq p, uintq n, uintq* q, bool isParity)
 {
     SIMULATOR_LOCK_GUARD_VOID(sid)
-    bitCapInt mask = ZERO_BCI;
-    for (uintq i = 0U; i < n; ++i) {
-        bi_or_ip(&mask, pow2(GetSimShardId(simulator, q[i])));
-    }
     try {
+        bitCapInt mask = ZERO_BCI;
+        for (uintq i = 0U; i < n; ++i) {
+            bi_or_ip(&mask, pow2(GetSimShardId(simulator, q[i])));
+        }
         if (isParity) {
             simulator->PhaseParity((real1_f)lambda, mask);
         } else {
@@ -1242,7 +1248,7 @@ double _JointEnsembleProbabilityHelper(QInterfacePtr simulator, uintq n, int* b,
     }
 
     std::vector<int> bVec(b, b + n);
-    std::vector<bitLenInt> qVec(q, q + n);
+    std::vector<uintq> qVec(q, q + n);
 
     removeIdentities(&bVec, &qVec);
     n = (uintq)qVec.size();
@@ -1593,8 +1599,14 @@ MICROSOFT_QUANTUM_DECL void Mtrx(_In_ uintq sid, _In_reads_(8) double* m, _In_ u
 #define MAP_CONTROLS_AND_LOCK(sid, numC)                                                                               \
     SIMULATOR_LOCK_GUARD_VOID(sid)                                                                                     \
     std::vector<bitLenInt> ctrlsArray(numC);                                                                           \
-    for (uintq i = 0; i < numC; ++i) {                                                                                 \
-        ctrlsArray[i] = GetSimShardId(simulator, c[i]);                                                                \
+    try {                                                                                                              \
+        for (uintq i = 0; i < numC; ++i) {                                                                             \
+            ctrlsArray[i] = GetSimShardId(simulator, c[i]);                                                            \
+        }                                                                                                              \
+    } catch (const std::exception& ex) {                                                                               \
+        simulatorErrors[sid] = 1;                                                                                      \
+        std::cout << ex.what() << std::endl;                                                                           \
+        return;                                                                                                        \
     }
 
 /**
@@ -1930,8 +1942,14 @@ MICROSOFT_QUANTUM_DECL void Multiplex1Mtrx(
 #define MAP_MASK_AND_LOCK(sid, numQ)                                                                                   \
     SIMULATOR_LOCK_GUARD_VOID(sid)                                                                                     \
     bitCapInt mask = ZERO_BCI;                                                                                         \
-    for (uintq i = 0U; i < numQ; ++i) {                                                                                \
-        bi_or_ip(&mask, pow2(GetSimShardId(simulator, q[i])));                                                         \
+    try {                                                                                                              \
+        for (uintq i = 0U; i < numQ; ++i) {                                                                            \
+            bi_or_ip(&mask, pow2(GetSimShardId(simulator, q[i])));                                                     \
+        }                                                                                                              \
+    } catch (const std::exception& ex) {                                                                               \
+        simulatorErrors[sid] = 1;                                                                                      \
+        std::cout << ex.what() << std::endl;                                                                           \
+        return;                                                                                                        \
     }
 
 /**
@@ -2018,7 +2036,7 @@ MICROSOFT_QUANTUM_DECL void Exp(
     SIMULATOR_LOCK_GUARD_VOID(sid)
 
     std::vector<int> bVec(b, b + n);
-    std::vector<bitLenInt> qVec(q, q + n);
+    std::vector<uintq> qVec(q, q + n);
 
     uintq someQubit = qVec.front();
 
@@ -2056,7 +2074,7 @@ MICROSOFT_QUANTUM_DECL void MCExp(_In_ uintq sid, _In_ uintq n, _In_reads_(n) in
     SIMULATOR_LOCK_GUARD_VOID(sid)
 
     std::vector<int> bVec(b, b + n);
-    std::vector<bitLenInt> qVec(q, q + n);
+    std::vector<uintq> qVec(q, q + n);
 
     uintq someQubit = qVec.front();
 
@@ -2162,11 +2180,11 @@ MICROSOFT_QUANTUM_DECL void MeasureShots(
     _In_ uintq sid, _In_ uintq n, _In_reads_(n) uintq* q, _In_ uintq s, _In_reads_(s) uintq* m)
 {
     SIMULATOR_LOCK_GUARD_VOID(sid)
-    std::vector<bitCapInt> qPowers(n);
-    for (uintq i = 0U; i < n; ++i) {
-        qPowers[i] = Qrack::pow2(GetSimShardId(simulator, q[i]));
-    }
     try {
+        std::vector<bitCapInt> qPowers(n);
+        for (uintq i = 0U; i < n; ++i) {
+            qPowers[i] = Qrack::pow2(GetSimShardId(simulator, q[i]));
+        }
         simulator->MultiShotMeasureMask(qPowers, (unsigned)s, m);
     } catch (const std::exception& ex) {
         simulatorErrors[sid] = 1;
@@ -2499,26 +2517,26 @@ double _Prob(_In_ uintq sid, _In_ uintq q, bool isRdm)
 MICROSOFT_QUANTUM_DECL void ProbAll(_In_ uintq sid, _In_ uintq n, _In_reads_(n) uintq* q, real1_s* p)
 {
     SIMULATOR_LOCK_GUARD_VOID(sid)
-    std::vector<bitLenInt> _q(n);
-    for (uintq i = 0; i < n; ++i) {
-        _q[i] = GetSimShardId(simulator, q[i]);
-    }
-    bool isOutProbs = false;
-    if (_q.size() == simulator->GetQubitCount()) {
-        isOutProbs = true;
-        for (size_t i = 0U; i < _q.size(); ++i) {
-            if (_q[i] == i) {
-                continue;
-            }
-            isOutProbs = false;
-            break;
-        }
-    }
 #if (FPPOW < 5) || (FPPOW > 6)
     const bitCapIntOcl npow = pow2Ocl(n);
     std::unique_ptr<real1[]> _p(new real1[npow]);
 #endif
     try {
+        std::vector<bitLenInt> _q(n);
+        for (uintq i = 0; i < n; ++i) {
+            _q[i] = GetSimShardId(simulator, q[i]);
+        }
+        bool isOutProbs = false;
+        if (_q.size() == simulator->GetQubitCount()) {
+            isOutProbs = true;
+            for (size_t i = 0U; i < _q.size(); ++i) {
+                if (_q[i] == i) {
+                    continue;
+                }
+                isOutProbs = false;
+                break;
+            }
+        }
 #if (FPPOW < 5) || (FPPOW > 6)
         if (isOutProbs) {
             simulator->GetProbs(_p.get());
@@ -2554,17 +2572,17 @@ double _PermutationProb(uintq sid, uintq n, uintq* q, bool* c, bool isRdm, bool
 {
     SIMULATOR_LOCK_GUARD_DOUBLE(sid)
 
-    bitCapInt mask = ZERO_BCI;
-    bitCapInt perm = ZERO_BCI;
-    for (uintq i = 0U; i < n; ++i) {
-        const bitCapInt p = pow2(GetSimShardId(simulator, q[i]));
-        bi_or_ip(&mask, p);
-        if (c[i]) {
-            bi_or_ip(&perm, p);
+    try {
+        bitCapInt mask = ZERO_BCI;
+        bitCapInt perm = ZERO_BCI;
+        for (uintq i = 0U; i < n; ++i) {
+            const bitCapInt p = pow2(GetSimShardId(simulator, q[i]));
+            bi_or_ip(&mask, p);
+            if (c[i]) {
+                bi_or_ip(&perm, p);
+            }
         }
-    }
 
-    try {
         return isRdm ? (double)simulator->ProbMaskRdm(r, mask, perm) : (double)simulator->ProbMask(mask, perm);
     } catch (const std::exception& ex) {
         simulatorErrors[sid] = 1;
@@ -2597,13 +2615,13 @@ double _PermutationExpVar(uintq sid, uintq n, uintq* q, bool r, bool isRdm, bool
 {
     SIMULATOR_LOCK_GUARD_DOUBLE(sid)
 
-    std::vector<bitLenInt> _q;
-    _q.reserve(n);
-    for (uintq i = 0U; i < n; ++i) {
-        _q.push_back(GetSimShardId(simulator, q[i]));
-    }
-
     try {
+        std::vector<bitLenInt> _q;
+        _q.reserve(n);
+        for (uintq i = 0U; i < n; ++i) {
+            _q.push_back(GetSimShardId(simulator, q[i]));
+        }
+
         return isExp
             ? isRdm ? (double)simulator->ExpectationBitsAllRdm(r, _q) : (double)simulator->ExpectationBitsAll(_q)
             : isRdm ? (double)simulator->VarianceBitsAllRdm(r, _q)
@@ -2654,12 +2672,6 @@ double _FactorizedExpVar(uintq sid, uintq n, uintq* q, uintq m, uintq* c, real1_
 {
     SIMULATOR_LOCK_GUARD_DOUBLE(sid)
 
-    std::vector<bitLenInt> _q;
-    _q.reserve(n);
-    for (uintq i = 0U; i < n; ++i) {
-        _q.push_back(GetSimShardId(simulator, q[i]));
-    }
-
     const uintq n2 = n << 1U;
 
     std::vector<bitCapInt> _c;
@@ -2690,6 +2702,12 @@ double _FactorizedExpVar(uintq sid, uintq n, uintq* q, uintq m, uintq* c, real1_
     }
 
     try {
+        std::vector<bitLenInt> _q;
+        _q.reserve(n);
+        for (uintq i = 0U; i < n; ++i) {
+            _q.push_back(GetSimShardId(simulator, q[i]));
+        }
+
         return isExp ? c ? isRdm ? (double)simulator->ExpectationBitsFactorizedRdm(r, _q, _c)
                                  : (double)simulator->ExpectationBitsFactorized(_q, _c)
                 : isRdm ? (double)simulator->ExpectationFloatsFactorizedRdm(r, _q, _f)
@@ -2783,18 +2801,26 @@ MICROSOFT_QUANTUM_DECL double FactorizedVarianceFpRdm(
 double UnitaryExpVar(bool isExp, uintq sid, uintq n, uintq* q, real1_s* b)
 {
     SIMULATOR_LOCK_GUARD_DOUBLE(sid)
-    std::vector<bitLenInt> _q;
-    std::vector<real1_f> _b;
-    _q.reserve(n);
-    _b.reserve(3U * n);
-    for (size_t i = 0U; i < n; ++i) {
-        _q.emplace_back(GetSimShardId(simulator, q[i]));
-        const size_t i3 = 3U * i;
-        for (size_t j = 0U; j < 3U; ++j) {
-            _b.emplace_back(b[i3 + j]);
+
+    try {
+        std::vector<bitLenInt> _q;
+        std::vector<real1_f> _b;
+        _q.reserve(n);
+        _b.reserve(3U * n);
+        for (size_t i = 0U; i < n; ++i) {
+            _q.emplace_back(GetSimShardId(simulator, q[i]));
+            const size_t i3 = 3U * i;
+            for (size_t j = 0U; j < 3U; ++j) {
+                _b.emplace_back(b[i3 + j]);
+            }
         }
+        return (double)(isExp ? simulator->ExpectationUnitaryAll(_q, _b) : simulator->VarianceUnitaryAll(_q, _b));
+    } catch (const std::exception& ex) {
+        simulatorErrors[sid] = 1;
+        std::cout << ex.what() << std::endl;
+
+        return (double)REAL1_DEFAULT_ARG;
     }
-    return (double)(isExp ? simulator->ExpectationUnitaryAll(_q, _b) : simulator->VarianceUnitaryAll(_q, _b));
 }
 
 /**
@@ -2818,20 +2844,28 @@ MICROSOFT_QUANTUM_DECL double UnitaryVariance(
 double MatrixExpVar(bool isExp, uintq sid, uintq n, uintq* q, real1_s* b)
 {
     SIMULATOR_LOCK_GUARD_DOUBLE(sid)
-    std::vector<bitLenInt> _q;
-    std::vector<std::shared_ptr<complex>> _b;
-    _q.reserve(n);
-    _b.reserve(n << 3U);
-    for (size_t i = 0U; i < n; ++i) {
-        _q.emplace_back(GetSimShardId(simulator, q[i]));
-        const size_t i8 = i << 3U;
-        _b.emplace_back(new complex[4U], std::default_delete<complex[]>());
-        for (size_t j = 0U; j < 4U; ++j) {
-            const size_t j2 = j << 1U;
-            _b[i].get()[j] = complex((real1)b[i8 + j2], (real1)b[i8 + j2 + 1U]);
+
+    try {
+        std::vector<bitLenInt> _q;
+        std::vector<std::shared_ptr<complex>> _b;
+        _q.reserve(n);
+        _b.reserve(n << 3U);
+        for (size_t i = 0U; i < n; ++i) {
+            _q.emplace_back(GetSimShardId(simulator, q[i]));
+            const size_t i8 = i << 3U;
+            _b.emplace_back(new complex[4U], std::default_delete<complex[]>());
+            for (size_t j = 0U; j < 4U; ++j) {
+                const size_t j2 = j << 1U;
+                _b[i].get()[j] = complex((real1)b[i8 + j2], (real1)b[i8 + j2 + 1U]);
+            }
         }
+        return (double)(isExp ? simulator->ExpectationUnitaryAll(_q, _b) : simulator->VarianceUnitaryAll(_q, _b));
+    } catch (const std::exception& ex) {
+        simulatorErrors[sid] = 1;
+        std::cout << ex.what() << std::endl;
+
+        return (double)REAL1_DEFAULT_ARG;
     }
-    return (double)(isExp ? simulator->ExpectationUnitaryAll(_q, _b) : simulator->VarianceUnitaryAll(_q, _b));
 }
 
 /**
@@ -2855,25 +2889,33 @@ MICROSOFT_QUANTUM_DECL double MatrixVariance(
 double UnitaryExpVarEigenVal(bool isExp, uintq sid, uintq n, uintq* q, real1_s* b, real1_s* e)
 {
     SIMULATOR_LOCK_GUARD_DOUBLE(sid)
-    std::vector<bitLenInt> _q;
-    std::vector<real1_f> _b;
-    std::vector<real1_f> _e;
-    _q.reserve(n);
-    _b.reserve(3U * n);
-    _e.reserve(n << 1U);
-    for (size_t i = 0U; i < n; ++i) {
-        _q.emplace_back(GetSimShardId(simulator, q[i]));
-
-        const size_t i2 = i << 1U;
-        _e.emplace_back(e[i2]);
-        _e.emplace_back(e[i2 + 1U]);
-
-        const size_t i3 = 3U * i;
-        for (size_t j = 0U; j < 3U; ++j) {
-            _b.emplace_back(b[i3 + j]);
+
+    try {
+        std::vector<bitLenInt> _q;
+        std::vector<real1_f> _b;
+        std::vector<real1_f> _e;
+        _q.reserve(n);
+        _b.reserve(3U * n);
+        _e.reserve(n << 1U);
+        for (size_t i = 0U; i < n; ++i) {
+            _q.emplace_back(GetSimShardId(simulator, q[i]));
+
+            const size_t i2 = i << 1U;
+            _e.emplace_back(e[i2]);
+            _e.emplace_back(e[i2 + 1U]);
+
+            const size_t i3 = 3U * i;
+            for (size_t j = 0U; j < 3U; ++j) {
+                _b.emplace_back(b[i3 + j]);
+            }
         }
+        return (double)(isExp ? simulator->ExpectationUnitaryAll(_q, _b, _e) : simulator->VarianceUnitaryAll(_q, _b, _e));
+    } catch (const std::exception& ex) {
+        simulatorErrors[sid] = 1;
+        std::cout << ex.what() << std::endl;
+
+        return (double)REAL1_DEFAULT_ARG;
     }
-    return (double)(isExp ? simulator->ExpectationUnitaryAll(_q, _b, _e) : simulator->VarianceUnitaryAll(_q, _b, _e));
 }
 
 /**
@@ -2897,27 +2939,35 @@ MICROSOFT_QUANTUM_DECL double UnitaryVarianceEigenVal(
 double MatrixExpVarEigenVal(bool isExp, uintq sid, uintq n, uintq* q, real1_s* b, real1_s* e)
 {
     SIMULATOR_LOCK_GUARD_DOUBLE(sid)
-    std::vector<bitLenInt> _q;
-    std::vector<std::shared_ptr<complex>> _b;
-    std::vector<real1_f> _e;
-    _q.reserve(n);
-    _b.reserve(n << 3U);
-    _e.reserve(n << 1U);
-    for (size_t i = 0U; i < n; ++i) {
-        _q.emplace_back(GetSimShardId(simulator, q[i]));
-
-        const size_t i2 = i << 1U;
-        _e.emplace_back(e[i2]);
-        _e.emplace_back(e[i2 + 1U]);
-
-        const size_t i8 = i << 3U;
-        _b.emplace_back(new complex[4U], std::default_delete<complex[]>());
-        for (size_t j = 0U; j < 4U; ++j) {
-            const size_t j2 = j << 1U;
-            _b[i].get()[j] = complex((real1)b[i8 + j2], (real1)b[i8 + j2 + 1U]);
+
+    try {
+        std::vector<bitLenInt> _q;
+        std::vector<std::shared_ptr<complex>> _b;
+        std::vector<real1_f> _e;
+        _q.reserve(n);
+        _b.reserve(n << 3U);
+        _e.reserve(n << 1U);
+        for (size_t i = 0U; i < n; ++i) {
+            _q.emplace_back(GetSimShardId(simulator, q[i]));
+
+            const size_t i2 = i << 1U;
+            _e.emplace_back(e[i2]);
+            _e.emplace_back(e[i2 + 1U]);
+
+            const size_t i8 = i << 3U;
+            _b.emplace_back(new complex[4U], std::default_delete<complex[]>());
+            for (size_t j = 0U; j < 4U; ++j) {
+                const size_t j2 = j << 1U;
+                _b[i].get()[j] = complex((real1)b[i8 + j2], (real1)b[i8 + j2 + 1U]);
+            }
         }
+        return (double)(isExp ? simulator->ExpectationUnitaryAll(_q, _b, _e) : simulator->VarianceUnitaryAll(_q, _b, _e));
+    } catch (const std::exception& ex) {
+        simulatorErrors[sid] = 1;
+        std::cout << ex.what() << std::endl;
+
+        return (double)REAL1_DEFAULT_ARG;
     }
-    return (double)(isExp ? simulator->ExpectationUnitaryAll(_q, _b, _e) : simulator->VarianceUnitaryAll(_q, _b, _e));
 }
 
 /**
@@ -2941,15 +2991,23 @@ MICROSOFT_QUANTUM_DECL double MatrixVarianceEigenVal(
 double PauliExpVar(bool isExp, uintq sid, uintq n, uintq* q, uintq* b)
 {
     SIMULATOR_LOCK_GUARD_DOUBLE(sid)
-    std::vector<bitLenInt> _q;
-    std::vector<Pauli> _b;
-    _q.reserve(n);
-    _b.reserve(n);
-    for (size_t i = 0U; i < n; ++i) {
-        _q.emplace_back(GetSimShardId(simulator, q[i]));
-        _b.emplace_back((Pauli)b[i]);
+
+    try {
+        std::vector<bitLenInt> _q;
+        std::vector<Pauli> _b;
+        _q.reserve(n);
+        _b.reserve(n);
+        for (size_t i = 0U; i < n; ++i) {
+            _q.emplace_back(GetSimShardId(simulator, q[i]));
+            _b.emplace_back((Pauli)b[i]);
+        }
+        return (double)(isExp ? simulator->ExpectationPauliAll(_q, _b) : simulator->VariancePauliAll(_q, _b));
+    } catch (const std::exception& ex) {
+        simulatorErrors[sid] = 1;
+        std::cout << ex.what() << std::endl;
+
+        return (double)REAL1_DEFAULT_ARG;
     }
-    return (double)(isExp ? simulator->ExpectationPauliAll(_q, _b) : simulator->VariancePauliAll(_q, _b));
 }
 
 /**
@@ -3328,12 +3386,12 @@ MICROSOFT_QUANTUM_DECL bool TrySeparateTol(_In_ uintq sid, _In_ uintq n, _In_rea
 {
     SIMULATOR_LOCK_GUARD_BOOL(sid)
 
-    std::vector<bitLenInt> bitArray(n);
-    for (uintq i = 0U; i < n; ++i) {
-        bitArray[i] = GetSimShardId(simulator, q[i]);
-    }
-
     try {
+        std::vector<bitLenInt> bitArray(n);
+        for (uintq i = 0U; i < n; ++i) {
+            bitArray[i] = GetSimShardId(simulator, q[i]);
+        }
+
         return simulator->TrySeparate(bitArray, (real1_f)tol);
     } catch (const std::exception& ex) {
         simulatorErrors[sid] = 1;
@@ -3510,9 +3568,20 @@ MICROSOFT_QUANTUM_DECL uintq init_qneuron(
         return -1;
     }
 
-    std::vector<bitLenInt> ctrlsArray(n);
-    for (uintq i = 0; i < n; ++i) {
-        ctrlsArray[i] = GetSimShardId(simulator, c[i]);
+    QNeuronPtr neuron;
+    try {
+        std::vector<bitLenInt> ctrlsArray(n);
+        for (uintq i = 0; i < n; ++i) {
+            ctrlsArray[i] = GetSimShardId(simulator, c[i]);
+        }
+
+        neuron = std::make_shared<QNeuron>(
+            simulator, ctrlsArray, GetSimShardId(simulator, q), (QNeuronActivationFn)f, (real1_f)a, (real1_f)tol);
+    } catch (const std::exception& ex) {
+        simulatorErrors[sid] = 1;
+        std::cout << ex.what() << std::endl;
+
+        return -1;
     }
 
     uintq nid = (uintq)neurons.size();
@@ -3525,8 +3594,6 @@ MICROSOFT_QUANTUM_DECL uintq init_qneuron(
         }
     }
 
-    QNeuronPtr neuron = std::make_shared<QNeuron>(
-        simulator, ctrlsArray, GetSimShardId(simulator, q), (QNeuronActivationFn)f, (real1_f)a, (real1_f)tol);
     neuronSimulators[neuron] = simulator.get();
 
     if (nid == neurons.size()) {
@@ -3866,7 +3933,12 @@ MICROSOFT_QUANTUM_DECL void qcircuit_append_mc(
 MICROSOFT_QUANTUM_DECL void qcircuit_run(_In_ uintq cid, _In_ uintq sid)
 {
     CIRCUIT_AND_SIMULATOR_LOCK_GUARD_VOID(cid, sid)
-    circuit->Run(simulator);
+    try {
+        circuit->Run(simulator);
+    } catch (const std::exception& ex) {
+        simulatorErrors[sid] = 1;
+        std::cout << ex.what() << std::endl;
+    }
 }
 
 MICROSOFT_QUANTUM_DECL void qcircuit_out_to_file(_In_ uintq cid, _In_ char* f)
-- 
2.43.0


From 5303d26fdc24c40403f27f34dd4381e76c1c93cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:25 +0000
Subject: [PATCH 31/49] fix: C API keeps the qubit id map in step with swaps in
 arithmetic, Decompose, Dispose, Separate, exponentials and multi-control
 circuit gates, and passes the classical bit of CLAND and its family in its
 place

---
 src/pinvoke_api.cpp | 347 ++++++++++++++++++++++----------------------
 1 file changed, 175 insertions(+), 172 deletions(-)

diff --git a/src/pinvoke_api.cpp b/src/pinvoke_api.cpp
index 3d539f3..0b9a59d 100644
--- a/src/pinvoke_api.cpp
+++ b/src/pinvoke_api.cpp
@@ -382,7 +382,7 @@ void RHelper(uintq sid, uintq b, double phi, uintq q)
         // This is a global phase factor, with no measurable physical effect.
         // However, the underlying QInterface will not execute the gate
         // UNLESS it is specifically "keeping book" for non-measurable phase effects.
-        complex phaseFac = exp(complex(ZERO_R1, (real1)(phi / 4)));
+        complex phaseFac = exp(complex(ZERO_R1, (real1)(-phi / 2)));
         simulator->Phase(phaseFac, phaseFac, GetSimShardId(simulator, q));
         break;
     }
@@ -409,7 +409,7 @@ void MCRHelper(uintq sid, uintq b, double phi, uintq n, uintq* c, uintq q)
     }
 
     if (b == PauliI) {
-        complex phaseFac = exp(complex(ZERO_R1, (real1)(phi / 4)));
+        complex phaseFac = exp(complex(ZERO_R1, (real1)(-phi / 2)));
         simulator->MCPhase(ctrlsArray, phaseFac, phaseFac, GetSimShardId(simulator, q));
 
         return;
@@ -443,11 +443,11 @@ void MCRHelper(uintq sid, uintq b, double phi, uintq n, uintq* c, uintq q)
     }
 }
 
-inline std::size_t make_mask(std::vector<bitLenInt> const& qs)
+inline bitCapInt make_mask(QInterfacePtr simulator, std::vector<uintq> const& qs)
 {
-    std::size_t mask = 0U;
-    for (const std::size_t q : qs) {
-        mask = mask | pow2Ocl(q);
+    bitCapInt mask = ZERO_BCI;
+    for (const uintq q : qs) {
+        bi_or_ip(&mask, pow2(GetSimShardId(simulator, q)));
     }
     return mask;
 }
@@ -471,19 +471,67 @@ void SwapShardValues(bitLenInt v1, bitLenInt v2, std::map<uintq, bitLenInt>& sim
     std::swap(it1->second, it2->second);
 }
 
+// Swap the qubit with ID "q" into position "target," keeping book in the ID map. (Any earlier swap might have moved this
+// qubit, so its position has to be looked up at the time of the swap.)
+void MoveShard(QInterfacePtr simulator, uintq q, bitLenInt target)
+{
+    const bitLenInt source = GetSimShardId(simulator, q);
+    if (source == target) {
+        return;
+    }
+    simulator->Swap(target, source);
+    SwapShardValues(target, source, shards[simulator.get()]);
+}
+
+// Erase the qubit IDs of "length" consecutive positions, which were removed from the simulator.
+void EraseShards(QInterfacePtr simulator, bitLenInt start, bitLenInt length)
+{
+    std::map<uintq, bitLenInt>& simShards = shards[simulator.get()];
+    for (auto it = simShards.begin(); it != simShards.end();) {
+        if (it->second < start) {
+            ++it;
+        } else if ((it->second - start) < length) {
+            it = simShards.erase(it);
+        } else {
+            it->second -= length;
+            ++it;
+        }
+    }
+}
+
+// Swap the qubits with IDs "q" to the end of the simulator, in order, and return the start of the range. ("sources" gets
+// the position of each qubit right before its swap.)
+bitLenInt MoveShardsToEnd(QInterfacePtr simulator, uintq n, uintq* q, std::vector<bitLenInt>* sources = nullptr)
+{
+    for (uintq i = 0U; i < n; ++i) {
+        GetSimShardId(simulator, q[i]);
+        if (std::find(q, q + i, q[i]) != (q + i)) {
+            throw std::invalid_argument("Qubit ID is duplicated!");
+        }
+    }
+
+    const bitLenInt start = simulator->GetQubitCount() - (bitLenInt)n;
+    for (uintq i = 0U; i < n; ++i) {
+        if (sources) {
+            sources->push_back(GetSimShardId(simulator, q[i]));
+        }
+        MoveShard(simulator, q[i], start + i);
+    }
+
+    return start;
+}
+
 uintq MapArithmetic(QInterfacePtr simulator, uintq n, uintq* q)
 {
     uintq start = GetSimShardId(simulator, q[0U]);
-    std::unique_ptr<bitLenInt[]> bitArray(new bitLenInt[n]);
-    for (uintq i = 0U; i < n; ++i) {
-        bitArray[i] = GetSimShardId(simulator, q[i]);
-        if (start > bitArray[i]) {
-            start = bitArray[i];
+    for (uintq i = 1U; i < n; ++i) {
+        const uintq bit = GetSimShardId(simulator, q[i]);
+        if (start > bit) {
+            start = bit;
         }
     }
     for (uintq i = 0U; i < n; ++i) {
-        simulator->Swap(start + i, bitArray[i]);
-        SwapShardValues(start + i, bitArray[i], shards[simulator.get()]);
+        MoveShard(simulator, q[i], start + i);
     }
     return start;
 }
@@ -499,78 +547,36 @@ struct MapArithmeticResult2 {
     }
 };
 
-MapArithmeticResult2 MapArithmetic2(QInterfacePtr simulator, uintq n, uintq* q1, uintq* q2)
-{
-    uintq start1 = GetSimShardId(simulator, q1[0U]);
-    uintq start2 = GetSimShardId(simulator, q2[0U]);
-    std::unique_ptr<bitLenInt[]> bitArray1(new bitLenInt[n]);
-    std::unique_ptr<bitLenInt[]> bitArray2(new bitLenInt[n]);
-    for (uintq i = 0U; i < n; ++i) {
-        bitArray1[i] = GetSimShardId(simulator, q1[i]);
-        if (start1 > bitArray1[i]) {
-            start1 = bitArray1[i];
-        }
-        bitArray2[i] = GetSimShardId(simulator, q2[i]);
-        if (start2 > bitArray2[i]) {
-            start2 = bitArray2[i];
-        }
-    }
-    bool isReversed = (start2 < start1);
-    if (isReversed) {
-        std::swap(start1, start2);
-        bitArray1.swap(bitArray2);
-    }
-    for (uintq i = 0U; i < n; ++i) {
-        simulator->Swap(start1 + i, bitArray1[i]);
-        SwapShardValues(start1 + i, bitArray1[i], shards[simulator.get()]);
-    }
-    if ((start1 + n) > start2) {
-        start2 = start1 + n;
-    }
-    for (uintq i = 0U; i < n; ++i) {
-        simulator->Swap(start2 + i, bitArray2[i]);
-        SwapShardValues(start2 + i, bitArray2[i], shards[simulator.get()]);
-    }
-    if (isReversed) {
-        std::swap(start1, start2);
-    }
-    return MapArithmeticResult2(start1, start2);
-}
-
 MapArithmeticResult2 MapArithmetic3(QInterfacePtr simulator, uintq n1, uintq* q1, uintq n2, uintq* q2)
 {
     uintq start1 = GetSimShardId(simulator, q1[0U]);
     uintq start2 = GetSimShardId(simulator, q2[0U]);
-    std::unique_ptr<bitLenInt[]> bitArray1(new bitLenInt[n1]);
-    std::unique_ptr<bitLenInt[]> bitArray2(new bitLenInt[n2]);
-    for (uintq i = 0U; i < n1; ++i) {
-        bitArray1[i] = GetSimShardId(simulator, q1[i]);
-        if (start1 > bitArray1[i]) {
-            start1 = bitArray1[i];
+    for (uintq i = 1U; i < n1; ++i) {
+        const uintq bit = GetSimShardId(simulator, q1[i]);
+        if (start1 > bit) {
+            start1 = bit;
         }
     }
-    for (uintq i = 0U; i < n2; ++i) {
-        bitArray2[i] = GetSimShardId(simulator, q2[i]);
-        if (start2 > bitArray2[i]) {
-            start2 = bitArray2[i];
+    for (uintq i = 1U; i < n2; ++i) {
+        const uintq bit = GetSimShardId(simulator, q2[i]);
+        if (start2 > bit) {
+            start2 = bit;
         }
     }
-    bool isReversed = (start2 < start1);
+    const bool isReversed = (start2 < start1);
     if (isReversed) {
         std::swap(start1, start2);
         std::swap(n1, n2);
-        bitArray1.swap(bitArray2);
+        std::swap(q1, q2);
     }
     for (uintq i = 0U; i < n1; ++i) {
-        simulator->Swap(start1 + i, bitArray1[i]);
-        SwapShardValues(start1 + i, bitArray1[i], shards[simulator.get()]);
+        MoveShard(simulator, q1[i], start1 + i);
     }
     if ((start1 + n1) > start2) {
         start2 = start1 + n1;
     }
     for (uintq i = 0U; i < n2; ++i) {
-        simulator->Swap(start2 + i, bitArray2[i]);
-        SwapShardValues(start2 + i, bitArray2[i], shards[simulator.get()]);
+        MoveShard(simulator, q2[i], start2 + i);
     }
     if (isReversed) {
         std::swap(start1, start2);
@@ -578,6 +584,11 @@ MapArithmeticResult2 MapArithmetic3(QInterfacePtr simulator, uintq n1, uintq* q1
     return MapArithmeticResult2(start1, start2);
 }
 
+MapArithmeticResult2 MapArithmetic2(QInterfacePtr simulator, uintq n, uintq* q1, uintq* q2)
+{
+    return MapArithmetic3(simulator, n, q1, n, q2);
+}
+
 void _darray_to_creal1_array(double* params, bitCapIntOcl componentCount, complex* amps)
 {
     for (bitCapIntOcl j = 0U; j < componentCount; ++j) {
@@ -597,7 +608,7 @@ bitCapInt _combineA(uintq na, const uintq* a)
 #if QBCAPPOW > 6
     bitCapInt aTot = ZERO_BCI;
     for (uintq i = 0U; i < na; ++i) {
-        bi_lshift_ip(&aTot, bitsInCap);
+        bi_lshift_ip(&aTot, 8U * sizeof(uintq));
         bi_or_ip(&aTot, a[na - (i + 1U)]);
     }
 
@@ -1318,31 +1329,32 @@ MICROSOFT_QUANTUM_DECL void allocateQubit(_In_ uintq sid, _In_ uintq qid)
         return;
     }
 
-    QInterfacePtr nQubit = CreateQuantumInterface(
-        simulatorTypes[sid], 1U, ZERO_BCI, randNumGen, CMPLX_DEFAULT_ARG, false, true, simulatorHostPointer[sid]);
-
-    if (!simulators[sid]) {
-        simulators[sid] = nQubit;
-        shards[nQubit.get()] = {};
-        shards[nQubit.get()][qid] = 0;
-
-        return;
-    }
-
     QInterfacePtr oSimulator = simulators[sid];
     std::unique_ptr<const std::lock_guard<std::mutex>> simulatorLock(
         new const std::lock_guard<std::mutex>(simulatorMutexes[oSimulator.get()]));
 
-    bitLenInt qubitCount = -1;
     try {
+        if (oSimulator && (shards[oSimulator.get()].find(qid) != shards[oSimulator.get()].end())) {
+            throw std::invalid_argument("Qubit ID is already allocated!");
+        }
+
+        QInterfacePtr nQubit = CreateQuantumInterface(
+            simulatorTypes[sid], 1U, ZERO_BCI, randNumGen, CMPLX_DEFAULT_ARG, false, true, simulatorHostPointer[sid]);
+
+        if (!oSimulator) {
+            simulators[sid] = nQubit;
+            shards[nQubit.get()] = {};
+            shards[nQubit.get()][qid] = 0;
+
+            return;
+        }
+
         oSimulator->Compose(nQubit);
-        qubitCount = simulators[sid]->GetQubitCount();
+        shards[oSimulator.get()][qid] = (oSimulator->GetQubitCount() - 1U);
     } catch (const std::exception& ex) {
         simulatorErrors[sid] = 1;
         std::cout << ex.what() << std::endl;
     }
-
-    shards[simulators[sid].get()][qid] = (qubitCount - 1U);
 }
 
 /**
@@ -1363,25 +1375,31 @@ MICROSOFT_QUANTUM_DECL bool release(_In_ uintq sid, _In_ uintq q)
     std::unique_ptr<const std::lock_guard<std::mutex>> simulatorLock(
         new const std::lock_guard<std::mutex>(simulatorMutexes[simulator.get()]));
 
-    // Check that the qubit is in the |0> state, to within a small tolerance.
-    bool toRet = simulator->Prob(GetSimShardId(simulator, q)) < (ONE_R1 / 100);
+    if (!simulator) {
+        return false;
+    }
 
-    if (simulator->GetQubitCount() == 1U) {
-        shards.erase(simulator.get());
-        simulators[sid] = nullptr;
-    } else {
-        std::map<uintq, bitLenInt>& simShards = shards[simulator.get()];
-        bitLenInt oIndex = simShards[q];
-        simulator->Dispose(oIndex, 1U);
-        for (auto it = simShards.begin(); it != simShards.end(); ++it) {
-            if (it->second > oIndex) {
-                --(it->second);
-            }
+    try {
+        const bitLenInt oIndex = GetSimShardId(simulator, q);
+
+        // Check that the qubit is in the |0> state, to within a small tolerance.
+        const bool toRet = simulator->Prob(oIndex) < (ONE_R1 / 100);
+
+        if (simulator->GetQubitCount() == 1U) {
+            shards.erase(simulator.get());
+            simulators[sid] = nullptr;
+        } else {
+            simulator->Dispose(oIndex, 1U);
+            EraseShards(simulator, oIndex, 1U);
         }
-        simShards.erase(q);
-    }
 
-    return toRet;
+        return toRet;
+    } catch (const std::exception& ex) {
+        simulatorErrors[sid] = 1;
+        std::cout << ex.what() << std::endl;
+
+        return false;
+    }
 }
 
 MICROSOFT_QUANTUM_DECL uintq num_qubits(_In_ uintq sid)
@@ -2050,7 +2068,7 @@ MICROSOFT_QUANTUM_DECL void Exp(
         } else {
             TransformPauliBasis(simulator, n, b, q);
 
-            std::size_t mask = make_mask(qVec);
+            bitCapInt mask = make_mask(simulator, qVec);
             QPARITY(simulator)->UniformParityRZ(mask, (real1_f)(-phi));
 
             RevertPauliBasis(simulator, n, b, q);
@@ -2086,11 +2104,14 @@ MICROSOFT_QUANTUM_DECL void MCExp(_In_ uintq sid, _In_ uintq n, _In_reads_(n) in
         } else if (bVec.size() == 1U) {
             MCRHelper(sid, bVec.front(), -2. * phi, nc, cs, qVec.front());
         } else {
-            std::vector<bitLenInt> csVec(cs, cs + nc);
+            std::vector<bitLenInt> csVec(nc);
+            for (uintq i = 0U; i < nc; ++i) {
+                csVec[i] = GetSimShardId(simulator, cs[i]);
+            }
 
             TransformPauliBasis(simulator, n, b, q);
 
-            std::size_t mask = make_mask(qVec);
+            bitCapInt mask = make_mask(simulator, qVec);
             QPARITY(simulator)->CUniformParityRZ(csVec, mask, (real1_f)(-phi));
 
             RevertPauliBasis(simulator, n, b, q);
@@ -2260,12 +2281,22 @@ MICROSOFT_QUANTUM_DECL void ACSWAP(_In_ uintq sid, _In_ uintq n, _In_reads_(n) u
 
 MICROSOFT_QUANTUM_DECL void Compose(_In_ uintq sid1, _In_ uintq sid2, uintq* q)
 {
-    if (!simulators[sid1] || !simulators[sid2]) {
+    if ((sid1 >= simulators.size()) || (sid2 >= simulators.size()) || (sid1 == sid2)) {
+        std::cout << "Invalid argument: simulator ID not found!" << std::endl;
+        metaError = 2;
+
+        return;
+    }
+
+    QInterfacePtr simulator1 = simulators[sid1];
+    QInterfacePtr simulator2 = simulators[sid2];
+
+    if (!simulator1 || !simulator2) {
         return;
     }
 
-    const std::lock_guard<std::mutex> simulatorLock1(simulatorMutexes[simulators[sid1].get()]);
-    const std::lock_guard<std::mutex> simulatorLock2(simulatorMutexes[simulators[sid2].get()]);
+    const std::lock_guard<std::mutex> simulatorLock1(simulatorMutexes[simulator1.get()]);
+    const std::lock_guard<std::mutex> simulatorLock2(simulatorMutexes[simulator2.get()]);
 
     if (simulatorTypes[sid1].size() != simulatorTypes[sid2].size()) {
         metaError = 2;
@@ -2283,23 +2314,24 @@ MICROSOFT_QUANTUM_DECL void Compose(_In_ uintq sid1, _In_ uintq sid2, uintq* q)
         }
     }
 
-    QInterfacePtr simulator1 = simulators[sid1];
-    QInterfacePtr simulator2 = simulators[sid2];
-    bitLenInt oQubitCount = 0U;
-    bitLenInt pQubitCount = 0U;
     try {
-        oQubitCount = simulator1->GetQubitCount();
-        pQubitCount = simulator2->GetQubitCount();
+        std::map<uintq, bitLenInt>& s = shards[simulator1.get()];
+        const bitLenInt oQubitCount = simulator1->GetQubitCount();
+        const bitLenInt pQubitCount = simulator2->GetQubitCount();
+        for (bitLenInt i = 0U; i < pQubitCount; ++i) {
+            if ((s.find(q[i]) != s.end()) || (std::find(q, q + i, q[i]) != (q + i))) {
+                throw std::invalid_argument("Qubit ID is already allocated!");
+            }
+        }
         simulator1->Compose(simulator2);
+        for (bitLenInt i = 0U; i < pQubitCount; ++i) {
+            s[q[i]] = oQubitCount + i;
+        }
     } catch (const std::exception& ex) {
         std::cout << ex.what() << std::endl;
         simulatorErrors[sid1] = 1;
         simulatorErrors[sid2] = 1;
     }
-    std::map<uintq, bitLenInt>& s = shards[simulator1.get()];
-    for (bitLenInt i = 0; i < pQubitCount; ++i) {
-        s[q[i]] = oQubitCount + i;
-    }
 }
 
 MICROSOFT_QUANTUM_DECL uintq Decompose(_In_ uintq sid, _In_ uintq n, _In_reads_(n) uintq* q)
@@ -2308,60 +2340,30 @@ MICROSOFT_QUANTUM_DECL uintq Decompose(_In_ uintq sid, _In_ uintq n, _In_reads_(
 
     SIMULATOR_LOCK_GUARD_INT(sid)
 
-    bitLenInt nQubitIndex = 0U;
-
     try {
-        nQubitIndex = simulator->GetQubitCount() - n;
-
-        for (uintq i = 0U; i < n; ++i) {
-            simulator->Swap(GetSimShardId(simulator, q[i]), i + nQubitIndex);
-        }
-
+        const bitLenInt nQubitIndex = MoveShardsToEnd(simulator, n, q);
         simulator->Decompose(nQubitIndex, simulators[nSid]);
+        EraseShards(simulator, nQubitIndex, n);
     } catch (const std::exception& ex) {
         std::cout << ex.what() << std::endl;
         simulatorErrors[sid] = 1;
         simulatorErrors[nSid] = 1;
     }
 
-    for (uintq j = 0U; j < n; ++j) {
-        std::map<uintq, bitLenInt>& simShards = shards[simulator.get()];
-        bitLenInt oIndex = simShards[q[j]];
-        for (auto it = simShards.begin(); it != simShards.end(); ++it) {
-            if (it->second > oIndex) {
-                --(it->second);
-            }
-        }
-        simShards.erase(q[j]);
-    }
-
     return nSid;
 }
 
 MICROSOFT_QUANTUM_DECL void Dispose(_In_ uintq sid, _In_ uintq n, _In_reads_(n) uintq* q)
 {
     SIMULATOR_LOCK_GUARD_VOID(sid)
-    bitLenInt nQubitIndex = 0U;
     try {
-        nQubitIndex = simulator->GetQubitCount() - n;
-        for (uintq i = 0U; i < n; ++i) {
-            simulator->Swap(GetSimShardId(simulator, q[i]), i + nQubitIndex);
-        }
+        const bitLenInt nQubitIndex = MoveShardsToEnd(simulator, n, q);
         simulator->Dispose(nQubitIndex, n);
+        EraseShards(simulator, nQubitIndex, n);
     } catch (const std::exception& ex) {
         simulatorErrors[sid] = 1;
         std::cout << ex.what() << std::endl;
     }
-    for (uintq j = 0U; j < n; ++j) {
-        std::map<uintq, bitLenInt>& simShards = shards[simulator.get()];
-        bitLenInt oIndex = simShards[q[j]];
-        for (auto it = simShards.begin(); it != simShards.end(); ++it) {
-            if (it->second > oIndex) {
-                --(it->second);
-            }
-        }
-        simShards.erase(q[j]);
-    }
 }
 
 MICROSOFT_QUANTUM_DECL void AND(_In_ uintq sid, _In_ uintq qi1, _In_ uintq qi2, _In_ uintq qo)
@@ -2434,7 +2436,7 @@ MICROSOFT_QUANTUM_DECL void CLAND(_In_ uintq sid, _In_ bool ci, _In_ uintq qi, _
 {
     SIMULATOR_LOCK_GUARD_VOID(sid)
     try {
-        simulator->CLAND(ci, GetSimShardId(simulator, qi), GetSimShardId(simulator, qo));
+        simulator->CLAND(GetSimShardId(simulator, qi), ci, GetSimShardId(simulator, qo));
     } catch (const std::exception& ex) {
         simulatorErrors[sid] = 1;
         std::cout << ex.what() << std::endl;
@@ -2445,7 +2447,7 @@ MICROSOFT_QUANTUM_DECL void CLOR(_In_ uintq sid, _In_ bool ci, _In_ uintq qi, _I
 {
     SIMULATOR_LOCK_GUARD_VOID(sid)
     try {
-        simulator->CLOR(ci, GetSimShardId(simulator, qi), GetSimShardId(simulator, qo));
+        simulator->CLOR(GetSimShardId(simulator, qi), ci, GetSimShardId(simulator, qo));
     } catch (const std::exception& ex) {
         simulatorErrors[sid] = 1;
         std::cout << ex.what() << std::endl;
@@ -2456,7 +2458,7 @@ MICROSOFT_QUANTUM_DECL void CLXOR(_In_ uintq sid, _In_ bool ci, _In_ uintq qi, _
 {
     SIMULATOR_LOCK_GUARD_VOID(sid)
     try {
-        simulator->CLXOR(ci, GetSimShardId(simulator, qi), GetSimShardId(simulator, qo));
+        simulator->CLXOR(GetSimShardId(simulator, qi), ci, GetSimShardId(simulator, qo));
     } catch (const std::exception& ex) {
         simulatorErrors[sid] = 1;
         std::cout << ex.what() << std::endl;
@@ -2467,7 +2469,7 @@ MICROSOFT_QUANTUM_DECL void CLNAND(_In_ uintq sid, _In_ bool ci, _In_ uintq qi,
 {
     SIMULATOR_LOCK_GUARD_VOID(sid)
     try {
-        simulator->CLNAND(ci, GetSimShardId(simulator, qi), GetSimShardId(simulator, qo));
+        simulator->CLNAND(GetSimShardId(simulator, qi), ci, GetSimShardId(simulator, qo));
     } catch (const std::exception& ex) {
         simulatorErrors[sid] = 1;
         std::cout << ex.what() << std::endl;
@@ -2478,7 +2480,7 @@ MICROSOFT_QUANTUM_DECL void CLNOR(_In_ uintq sid, _In_ bool ci, _In_ uintq qi, _
 {
     SIMULATOR_LOCK_GUARD_VOID(sid)
     try {
-        simulator->CLNOR(ci, GetSimShardId(simulator, qi), GetSimShardId(simulator, qo));
+        simulator->CLNOR(GetSimShardId(simulator, qi), ci, GetSimShardId(simulator, qo));
     } catch (const std::exception& ex) {
         simulatorErrors[sid] = 1;
         std::cout << ex.what() << std::endl;
@@ -2489,7 +2491,7 @@ MICROSOFT_QUANTUM_DECL void CLXNOR(_In_ uintq sid, _In_ bool ci, _In_ uintq qi,
 {
     SIMULATOR_LOCK_GUARD_VOID(sid)
     try {
-        simulator->CLXNOR(ci, GetSimShardId(simulator, qi), GetSimShardId(simulator, qo));
+        simulator->CLXNOR(GetSimShardId(simulator, qi), ci, GetSimShardId(simulator, qo));
     } catch (const std::exception& ex) {
         simulatorErrors[sid] = 1;
         std::cout << ex.what() << std::endl;
@@ -3405,27 +3407,21 @@ MICROSOFT_QUANTUM_DECL void Separate(_In_ uintq sid, _In_ uintq n, _In_reads_(n)
 {
     SIMULATOR_LOCK_GUARD_VOID(sid)
 
-    std::vector<bitLenInt> bitArray(n);
-    for (uintq i = 0U; i < n; ++i) {
-        bitArray[i] = GetSimShardId(simulator, q[i]);
-    }
-
-    const bitLenInt end = simulator->GetQubitCount() - 1U;
-    for (uintq i = 0U; i < n; ++i) {
-        simulator->Swap(end - i, bitArray[i]);
-    }
-
     try {
-        QInterfacePtr partSim = simulator->Decompose(end - n, n);
-        simulator->Compose(partSim);
+        std::vector<bitLenInt> bitArray;
+        const bitLenInt start = MoveShardsToEnd(simulator, n, q, &bitArray);
+        if (start) {
+            QInterfacePtr partSim = simulator->Decompose(start, n);
+            simulator->Compose(partSim);
+        }
+        // Undo the swaps, in reverse order.
+        for (uintq i = n; i > 0U; --i) {
+            MoveShard(simulator, q[i - 1U], bitArray[i - 1U]);
+        }
     } catch (const std::exception& ex) {
         simulatorErrors[sid] = 1;
         std::cout << ex.what() << std::endl;
     }
-
-    for (uintq i = 0U; i < n; ++i) {
-        simulator->Swap(end - i, bitArray[i]);
-    }
 }
 
 MICROSOFT_QUANTUM_DECL double GetUnitaryFidelity(_In_ uintq sid)
@@ -3537,6 +3533,12 @@ MICROSOFT_QUANTUM_DECL void TimeEvolve(_In_ uintq sid, _In_ double t, _In_ uintq
     SIMULATOR_LOCK_GUARD_VOID(sid)
 
     try {
+        for (uintq i = 0U; i < n; ++i) {
+            h[i]->targetBit = GetSimShardId(simulator, teos[i].target);
+            for (uintq j = 0U; j < teos[i].controlLen; ++j) {
+                h[i]->controls[j] = GetSimShardId(simulator, teos[i].controls[j]);
+            }
+        }
         simulator->TimeEvolve(h, (real1_f)t);
     } catch (const std::exception& ex) {
         simulatorErrors[sid] = 1;
@@ -3914,6 +3916,7 @@ MICROSOFT_QUANTUM_DECL void qcircuit_append_mc(
 {
     CIRCUIT_LOCK_GUARD_VOID(cid)
 
+    // Bit "i" of "p" is for control "c[i]," while the gate holds its controls sorted.
     std::vector<bitLenInt> indices(n);
     std::iota(indices.begin(), indices.end(), 0);
     std::sort(indices.begin(), indices.end(), [&](bitLenInt a, bitLenInt b) -> bool { return c[a] < c[b]; });
@@ -3921,7 +3924,7 @@ MICROSOFT_QUANTUM_DECL void qcircuit_append_mc(
     bitCapInt _p = ZERO_BCI;
     std::set<bitLenInt> ctrls;
     for (uintq i = 0U; i < n; ++i) {
-        bi_or_ip(&_p, ((p >> i) & 1U) << indices[i]);
+        bi_or_ip(&_p, ((p >> indices[i]) & 1U) << i);
         ctrls.insert(c[i]);
     }
 
-- 
2.43.0


From 1c0793557d08c4cab4a5bbd8871df391e719c052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:25 +0000
Subject: [PATCH 32/49] fix: QUnit::SetQuantumState accepts a single qubit in
 the -Y eigenstate

---
 src/qunit.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index bb11f50..9bd36d5 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -177,7 +177,7 @@ void QUnit::SetQuantumState(const complex* inputState)
             shard.amp0 /= abs(shard.amp0);
             shard.amp1 = ZERO_R1;
         } else if (IS_AMP_0((I_CMPLX * in0) + in1)) {
-            logFidelity += (double)log(clampProb(ONE_R1_F - norm((I_CMPLX * in0) - in1)));
+            logFidelity += (double)log(clampProb(ONE_R1_F - norm((I_CMPLX * in0) + in1)));
             shard.pauliBasis = PauliY;
             shard.amp1 = shard.amp0 / abs(shard.amp0);
             shard.amp0 = ZERO_R1;
-- 
2.43.0


From 1cb8063a79bcbb80986974ee857b2f957919b0ef Mon Sep 17 00:00:00 2001
From: dev <dev@local>
Date: Fri, 20 Nov 2026 00:17:56 +0000
Subject: [PATCH 33/49] fix: QEngine and QEngineCPU reject out-of-range qubits
 before changing the register (controlled gates, swaps, FSim, ProbReg, modular
 multiplication)

---
 src/qengine/arithmetic.cpp | 36 +++++++++++++++++
 src/qengine/qengine.cpp    | 80 ++++++++++++++++++++++++++++++++++++++
 src/qengine/state.cpp      |  4 ++
 3 files changed, 120 insertions(+)

diff --git a/src/qengine/arithmetic.cpp b/src/qengine/arithmetic.cpp
index b91dfd1..a93a9e9 100644
--- a/src/qengine/arithmetic.cpp
+++ b/src/qengine/arithmetic.cpp
@@ -407,6 +407,14 @@ void QEngineCPU::MULDIV(const IOFn& inFn, const IOFn& outFn, const bitCapInt& to
 
 void QEngineCPU::MUL(const bitCapInt& toMul, bitLenInt inOutStart, bitLenInt carryStart, bitLenInt length)
 {
+    if (isBadBitRange(inOutStart, length, qubitCount)) {
+        throw std::invalid_argument("QEngineCPU::MUL inOutStart range is out-of-bounds!");
+    }
+
+    if (isBadBitRange(carryStart, length, qubitCount)) {
+        throw std::invalid_argument("QEngineCPU::MUL carryStart range is out-of-bounds!");
+    }
+
     SetReg(carryStart, length, ZERO_BCI);
 
     if (bi_compare_0(toMul) == 0) {
@@ -507,6 +515,16 @@ void QEngineCPU::CMUL(const bitCapInt& toMul, bitLenInt inOutStart, bitLenInt ca
         return MUL(toMul, inOutStart, carryStart, length);
     }
 
+    if (isBadBitRange(inOutStart, length, qubitCount)) {
+        throw std::invalid_argument("QEngineCPU::CMUL inOutStart range is out-of-bounds!");
+    }
+
+    if (isBadBitRange(carryStart, length, qubitCount)) {
+        throw std::invalid_argument("QEngineCPU::CMUL carryStart range is out-of-bounds!");
+    }
+
+    ThrowIfQbIdArrayIsBad(controls, qubitCount, "QEngineCPU::CMUL control is out-of-bounds!");
+
     SetReg(carryStart, length, ZERO_BCI);
 
     if (bi_compare_0(toMul) == 0) {
@@ -584,6 +602,14 @@ void QEngineCPU::ModNOut(const MFn& kernelFn, const bitCapInt& modN, const bitLe
 void QEngineCPU::MULModNOut(
     const bitCapInt& toMod, const bitCapInt& modN, bitLenInt inStart, bitLenInt outStart, bitLenInt length)
 {
+    if (isBadBitRange(inStart, length, qubitCount)) {
+        throw std::invalid_argument("QEngineCPU::MULModNOut inStart range is out-of-bounds!");
+    }
+
+    if (isBadBitRange(outStart, length, qubitCount)) {
+        throw std::invalid_argument("QEngineCPU::MULModNOut outStart range is out-of-bounds!");
+    }
+
     SetReg(outStart, length, ZERO_BCI);
 
     if (bi_compare_0(toMod) == 0) {
@@ -692,6 +718,16 @@ void QEngineCPU::CMULModNOut(const bitCapInt& toMod, const bitCapInt& modN, bitL
         return MULModNOut(toMod, modN, inStart, outStart, length);
     }
 
+    if (isBadBitRange(inStart, length, qubitCount)) {
+        throw std::invalid_argument("QEngineCPU::CMULModNOut inStart range is out-of-bounds!");
+    }
+
+    if (isBadBitRange(outStart, length, qubitCount)) {
+        throw std::invalid_argument("QEngineCPU::CMULModNOut outStart range is out-of-bounds!");
+    }
+
+    ThrowIfQbIdArrayIsBad(controls, qubitCount, "QEngineCPU::CMULModNOut control is out-of-bounds!");
+
     SetReg(outStart, length, ZERO_BCI);
 
     const bitCapIntOcl toModOcl = (bitCapIntOcl)toMod;
diff --git a/src/qengine/qengine.cpp b/src/qengine/qengine.cpp
index 5b1f7e6..7c9a62e 100644
--- a/src/qengine/qengine.cpp
+++ b/src/qengine/qengine.cpp
@@ -18,6 +18,10 @@ namespace Qrack {
 
 void QEngine::Mtrx(const complex* mtrx, bitLenInt qubit)
 {
+    if (qubit >= qubitCount) {
+        throw std::invalid_argument("QEngine::Mtrx qubit index parameter must be within allocated qubit bounds!");
+    }
+
     if (IsIdentity(mtrx, false)) {
         return;
     }
@@ -54,6 +58,13 @@ void QEngine::UCMtrx(
         return Mtrx(mtrx, target);
     }
 
+    ThrowIfQbIdArrayIsBad(
+        controls, qubitCount, "QEngine::UCMtrx control index values must be within allocated qubit bounds!");
+
+    if (target >= qubitCount) {
+        throw std::invalid_argument("QEngine::UCMtrx target index parameter must be within allocated qubit bounds!");
+    }
+
     if (IsIdentity(mtrx, true)) {
         return;
     }
@@ -215,6 +226,13 @@ void QEngine::CSwap(const std::vector<bitLenInt>& controls, bitLenInt qubit1, bi
         return Swap(qubit1, qubit2);
     }
 
+    ThrowIfQbIdArrayIsBad(
+        controls, qubitCount, "QEngine::CSwap control index values must be within allocated qubit bounds!");
+
+    if ((qubit1 >= qubitCount) || (qubit2 >= qubitCount)) {
+        throw std::invalid_argument("QEngine::CSwap qubit index parameters must be within allocated qubit bounds!");
+    }
+
     if (qubit1 == qubit2) {
         return;
     }
@@ -243,6 +261,13 @@ void QEngine::AntiCSwap(const std::vector<bitLenInt>& controls, bitLenInt qubit1
         return Swap(qubit1, qubit2);
     }
 
+    ThrowIfQbIdArrayIsBad(
+        controls, qubitCount, "QEngine::AntiCSwap control index values must be within allocated qubit bounds!");
+
+    if ((qubit1 >= qubitCount) || (qubit2 >= qubitCount)) {
+        throw std::invalid_argument("QEngine::AntiCSwap qubit index parameters must be within allocated qubit bounds!");
+    }
+
     if (qubit1 == qubit2) {
         return;
     }
@@ -268,6 +293,13 @@ void QEngine::CSqrtSwap(const std::vector<bitLenInt>& controls, bitLenInt qubit1
         return SqrtSwap(qubit1, qubit2);
     }
 
+    ThrowIfQbIdArrayIsBad(
+        controls, qubitCount, "QEngine::CSqrtSwap control index values must be within allocated qubit bounds!");
+
+    if ((qubit1 >= qubitCount) || (qubit2 >= qubitCount)) {
+        throw std::invalid_argument("QEngine::CSqrtSwap qubit index parameters must be within allocated qubit bounds!");
+    }
+
     if (qubit1 == qubit2) {
         return;
     }
@@ -296,6 +328,14 @@ void QEngine::AntiCSqrtSwap(const std::vector<bitLenInt>& controls, bitLenInt qu
         return SqrtSwap(qubit1, qubit2);
     }
 
+    ThrowIfQbIdArrayIsBad(
+        controls, qubitCount, "QEngine::AntiCSqrtSwap control index values must be within allocated qubit bounds!");
+
+    if ((qubit1 >= qubitCount) || (qubit2 >= qubitCount)) {
+        throw std::invalid_argument(
+            "QEngine::AntiCSqrtSwap qubit index parameters must be within allocated qubit bounds!");
+    }
+
     if (qubit1 == qubit2) {
         return;
     }
@@ -321,6 +361,14 @@ void QEngine::CISqrtSwap(const std::vector<bitLenInt>& controls, bitLenInt qubit
         return ISqrtSwap(qubit1, qubit2);
     }
 
+    ThrowIfQbIdArrayIsBad(
+        controls, qubitCount, "QEngine::CISqrtSwap control index values must be within allocated qubit bounds!");
+
+    if ((qubit1 >= qubitCount) || (qubit2 >= qubitCount)) {
+        throw std::invalid_argument(
+            "QEngine::CISqrtSwap qubit index parameters must be within allocated qubit bounds!");
+    }
+
     if (qubit1 == qubit2) {
         return;
     }
@@ -349,6 +397,14 @@ void QEngine::AntiCISqrtSwap(const std::vector<bitLenInt>& controls, bitLenInt q
         return ISqrtSwap(qubit1, qubit2);
     }
 
+    ThrowIfQbIdArrayIsBad(
+        controls, qubitCount, "QEngine::AntiCISqrtSwap control index values must be within allocated qubit bounds!");
+
+    if ((qubit1 >= qubitCount) || (qubit2 >= qubitCount)) {
+        throw std::invalid_argument(
+            "QEngine::AntiCISqrtSwap qubit index parameters must be within allocated qubit bounds!");
+    }
+
     if (qubit1 == qubit2) {
         return;
     }
@@ -371,6 +427,14 @@ void QEngine::AntiCISqrtSwap(const std::vector<bitLenInt>& controls, bitLenInt q
 
 void QEngine::ApplyControlled2x2(const std::vector<bitLenInt>& controls, bitLenInt target, const complex* mtrx)
 {
+    ThrowIfQbIdArrayIsBad(controls, qubitCount,
+        "QEngine::ApplyControlled2x2 control index values must be within allocated qubit bounds!");
+
+    if (target >= qubitCount) {
+        throw std::invalid_argument(
+            "QEngine::ApplyControlled2x2 target index parameter must be within allocated qubit bounds!");
+    }
+
     std::unique_ptr<bitCapIntOcl[]> qPowersSorted(new bitCapIntOcl[controls.size() + 1U]);
     const bitCapIntOcl targetMask = pow2Ocl(target);
     bitCapIntOcl fullMask = 0U;
@@ -387,6 +451,14 @@ void QEngine::ApplyControlled2x2(const std::vector<bitLenInt>& controls, bitLenI
 
 void QEngine::ApplyAntiControlled2x2(const std::vector<bitLenInt>& controls, bitLenInt target, const complex* mtrx)
 {
+    ThrowIfQbIdArrayIsBad(controls, qubitCount,
+        "QEngine::ApplyAntiControlled2x2 control index values must be within allocated qubit bounds!");
+
+    if (target >= qubitCount) {
+        throw std::invalid_argument(
+            "QEngine::ApplyAntiControlled2x2 target index parameter must be within allocated qubit bounds!");
+    }
+
     std::unique_ptr<bitCapIntOcl[]> qPowersSorted(new bitCapIntOcl[controls.size() + 1U]);
     const bitCapIntOcl targetMask = pow2Ocl(target);
     for (size_t i = 0U; i < controls.size(); ++i) {
@@ -398,6 +470,10 @@ void QEngine::ApplyAntiControlled2x2(const std::vector<bitLenInt>& controls, bit
 }
 
 #define _QRACK_QENGINE_SWAP_PREAMBLE()                                                                                 \
+    if ((qubit1 >= qubitCount) || (qubit2 >= qubitCount)) {                                                            \
+        throw std::invalid_argument("QEngine swap qubit index parameters must be within allocated qubit bounds!");     \
+    }                                                                                                                  \
+                                                                                                                       \
     if (qubit1 == qubit2) {                                                                                            \
         return;                                                                                                        \
     }                                                                                                                  \
@@ -443,6 +519,10 @@ void QEngine::ISqrtSwap(bitLenInt qubit1, bitLenInt qubit2)
 }
 void QEngine::FSim(real1_f theta, real1_f phi, bitLenInt qubit1, bitLenInt qubit2)
 {
+    if ((qubit1 >= qubitCount) || (qubit2 >= qubitCount)) {
+        throw std::invalid_argument("QEngine::FSim qubit index parameters must be within allocated qubit bounds!");
+    }
+
     if (qubit2 < qubit1) {
         std::swap(qubit1, qubit2);
     }
diff --git a/src/qengine/state.cpp b/src/qengine/state.cpp
index 9875593..fec8371 100644
--- a/src/qengine/state.cpp
+++ b/src/qengine/state.cpp
@@ -1400,6 +1400,10 @@ real1_f QEngineCPU::CtrlOrAntiProb(bool controlState, bitLenInt control, bitLenI
 // Returns probability of permutation of the register
 real1_f QEngineCPU::ProbReg(bitLenInt start, bitLenInt length, const bitCapInt& permutation)
 {
+    if (isBadBitRange(start, length, qubitCount)) {
+        throw std::invalid_argument("QEngineCPU::ProbReg register range is out-of-bounds!");
+    }
+
     if (doNormalize) {
         NormalizeState();
     }
-- 
2.43.0


From 5a84ad942e7533cb258d966ea217f4891228363c Mon Sep 17 00:00:00 2001
From: dev <dev@local>
Date: Fri, 20 Nov 2026 00:17:56 +0000
Subject: [PATCH 34/49] fix: QInterface defaults check index, range and mask
 arguments before applying their component gates

---
 include/qinterface.hpp        | 16 ++++++++++
 src/qinterface/arithmetic.cpp | 38 +++++++++++++++++++++++
 src/qinterface/gates.cpp      | 34 +++++++++++++++++++++
 src/qinterface/qinterface.cpp | 57 +++++++++++++++++++++++++++++++++++
 4 files changed, 145 insertions(+)

diff --git a/include/qinterface.hpp b/include/qinterface.hpp
index 24a291e..ee04849 100644
--- a/include/qinterface.hpp
+++ b/include/qinterface.hpp
@@ -567,6 +567,14 @@ public:
             return;
         }
 
+        ThrowIfQbIdArrayIsBad(
+            controls, qubitCount, "QInterface::MACPhase control index values must be within allocated qubit bounds!");
+
+        if (target >= qubitCount) {
+            throw std::invalid_argument(
+                "QInterface::MACPhase target index parameter must be within allocated qubit bounds!");
+        }
+
         MACWrapper(controls, [this, topLeft, bottomRight, target](const std::vector<bitLenInt>& lc) {
             MCPhase(lc, topLeft, bottomRight, target);
         });
@@ -579,6 +587,14 @@ public:
     virtual void MACInvert(
         const std::vector<bitLenInt>& controls, const complex& topRight, const complex& bottomLeft, bitLenInt target)
     {
+        ThrowIfQbIdArrayIsBad(
+            controls, qubitCount, "QInterface::MACInvert control index values must be within allocated qubit bounds!");
+
+        if (target >= qubitCount) {
+            throw std::invalid_argument(
+                "QInterface::MACInvert target index parameter must be within allocated qubit bounds!");
+        }
+
         MACWrapper(controls, [this, topRight, bottomLeft, target](const std::vector<bitLenInt>& lc) {
             MCInvert(lc, topRight, bottomLeft, target);
         });
diff --git a/src/qinterface/arithmetic.cpp b/src/qinterface/arithmetic.cpp
index c45e4bf..ab60717 100644
--- a/src/qinterface/arithmetic.cpp
+++ b/src/qinterface/arithmetic.cpp
@@ -19,6 +19,10 @@ namespace Qrack {
 /** Add integer (without sign) */
 void QInterface::INC(const bitCapInt& toAdd, bitLenInt start, bitLenInt length)
 {
+    if (isBadBitRange(start, length, qubitCount)) {
+        throw std::invalid_argument("QInterface::INC range is out-of-bounds!");
+    }
+
     if (!length) {
         return;
     }
@@ -52,6 +56,14 @@ void QInterface::INC(const bitCapInt& toAdd, bitLenInt start, bitLenInt length)
 
 void QInterface::INCDECC(const bitCapInt& toAdd, bitLenInt start, bitLenInt length, bitLenInt carryIndex)
 {
+    if (isBadBitRange(start, length, qubitCount)) {
+        throw std::invalid_argument("QInterface::INCDECC range is out-of-bounds!");
+    }
+
+    if (carryIndex >= qubitCount) {
+        throw std::invalid_argument("QInterface::INCDECC carryIndex is out-of-bounds!");
+    }
+
     if (!length) {
         return;
     }
@@ -87,6 +99,12 @@ void QInterface::CINC(const bitCapInt& toAdd, bitLenInt start, bitLenInt length,
         return INC(toAdd, start, length);
     }
 
+    if (isBadBitRange(start, length, qubitCount)) {
+        throw std::invalid_argument("QInterface::CINC range is out-of-bounds!");
+    }
+
+    ThrowIfQbIdArrayIsBad(controls, qubitCount, "QInterface::CINC control is out-of-bounds!");
+
     if (!length) {
         return;
     }
@@ -177,6 +195,16 @@ void QInterface::IMULModNOut(
 void QInterface::CMULModNOut(const bitCapInt& toMul, const bitCapInt& modN, bitLenInt inStart, bitLenInt outStart,
     bitLenInt length, const std::vector<bitLenInt>& controls)
 {
+    if (isBadBitRange(inStart, length, qubitCount)) {
+        throw std::invalid_argument("QInterface::CMULModNOut inStart range is out-of-bounds!");
+    }
+
+    if (isBadBitRange(outStart, length, qubitCount)) {
+        throw std::invalid_argument("QInterface::CMULModNOut outStart range is out-of-bounds!");
+    }
+
+    ThrowIfQbIdArrayIsBad(controls, qubitCount, "QInterface::CMULModNOut control is out-of-bounds!");
+
     if (!isPowerOfTwo(modN)) {
         // (Sums of partial products don't reduce modulo N, in place.)
         return CXorMulModN(this, toMul, modN, inStart, outStart, length, controls);
@@ -202,6 +230,16 @@ void QInterface::CMULModNOut(const bitCapInt& toMul, const bitCapInt& modN, bitL
 void QInterface::CIMULModNOut(const bitCapInt& toMul, const bitCapInt& modN, bitLenInt inStart, bitLenInt outStart,
     bitLenInt length, const std::vector<bitLenInt>& controls)
 {
+    if (isBadBitRange(inStart, length, qubitCount)) {
+        throw std::invalid_argument("QInterface::CIMULModNOut inStart range is out-of-bounds!");
+    }
+
+    if (isBadBitRange(outStart, length, qubitCount)) {
+        throw std::invalid_argument("QInterface::CIMULModNOut outStart range is out-of-bounds!");
+    }
+
+    ThrowIfQbIdArrayIsBad(controls, qubitCount, "QInterface::CIMULModNOut control is out-of-bounds!");
+
     if (!isPowerOfTwo(modN)) {
         return CXorMulModN(this, toMul, modN, inStart, outStart, length, controls);
     }
diff --git a/src/qinterface/gates.cpp b/src/qinterface/gates.cpp
index e0918fd..233c8e2 100644
--- a/src/qinterface/gates.cpp
+++ b/src/qinterface/gates.cpp
@@ -23,6 +23,12 @@ QRACK_CONST complex C_SQRT1_2_NEG = complex(-SQRT1_2_R1, ZERO_R1);
 void QInterface::UCMtrx(
     const std::vector<bitLenInt>& controls, const complex* mtrx, bitLenInt target, const bitCapInt& controlPerm)
 {
+    if (target >= qubitCount) {
+        throw std::invalid_argument("QInterface::UCMtrx target index parameter must be within allocated qubit bounds!");
+    }
+    ThrowIfQbIdArrayIsBad(controls, qubitCount,
+        "QInterface::UCMtrx parameter controls array values must be within allocated qubit bounds!");
+
     size_t setCount = 0U;
     for (size_t i = 0U; i < controls.size(); ++i) {
         if (bi_and_1(controlPerm >> i)) {
@@ -62,6 +68,14 @@ void QInterface::UCMtrx(
 void QInterface::UniformlyControlledSingleBit(const std::vector<bitLenInt>& controls, bitLenInt qubitIndex,
     const complex* mtrxs, const std::vector<bitCapInt>& mtrxSkipPowers, const bitCapInt& mtrxSkipValueMask)
 {
+    if (qubitIndex >= qubitCount) {
+        throw std::invalid_argument(
+            "QInterface::UniformlyControlledSingleBit target index parameter must be within allocated qubit bounds!");
+    }
+    ThrowIfQbIdArrayIsBad(controls, qubitCount,
+        "QInterface::UniformlyControlledSingleBit parameter controls array values must be within allocated qubit "
+        "bounds!");
+
     for (const bitLenInt& control : controls) {
         X(control);
     }
@@ -100,6 +114,10 @@ void QInterface::ZeroPhaseFlip(bitLenInt start, bitLenInt length)
 
 void QInterface::XMask(const bitCapInt& _mask)
 {
+    if ((bi_compare_0(_mask) != 0) && (log2(_mask) >= qubitCount)) {
+        throw std::invalid_argument("QInterface::XMask mask out-of-bounds!");
+    }
+
     bitCapInt mask = _mask;
     bitCapInt v = mask;
     while (bi_compare_0(mask) != 0) {
@@ -111,6 +129,10 @@ void QInterface::XMask(const bitCapInt& _mask)
 
 void QInterface::YMask(const bitCapInt& _mask)
 {
+    if ((bi_compare_0(_mask) != 0) && (log2(_mask) >= qubitCount)) {
+        throw std::invalid_argument("QInterface::YMask mask out-of-bounds!");
+    }
+
     bitLenInt bit = log2(_mask);
 
     if (bi_compare(pow2(bit), _mask) == 0) {
@@ -143,6 +165,10 @@ void QInterface::YMask(const bitCapInt& _mask)
 
 void QInterface::ZMask(const bitCapInt& _mask)
 {
+    if ((bi_compare_0(_mask) != 0) && (log2(_mask) >= qubitCount)) {
+        throw std::invalid_argument("QInterface::ZMask mask out-of-bounds!");
+    }
+
     bitCapInt mask = _mask;
     bitCapInt v = mask;
     while (bi_compare_0(mask) != 0) {
@@ -154,6 +180,10 @@ void QInterface::ZMask(const bitCapInt& _mask)
 
 void QInterface::PhaseRootNMask(bitLenInt n, const bitCapInt& _mask)
 {
+    if ((bi_compare_0(_mask) != 0) && (log2(_mask) >= qubitCount)) {
+        throw std::invalid_argument("QInterface::PhaseRootNMask mask out-of-bounds!");
+    }
+
     bitCapInt mask = _mask;
     bitCapInt v = mask;
     while (bi_compare_0(mask) != 0) {
@@ -398,6 +428,10 @@ void QInterface::AntiCISqrtSwap(const std::vector<bitLenInt>& controls, bitLenIn
 
 void QInterface::PhaseParity(real1_f radians, const bitCapInt& _mask)
 {
+    if ((bi_compare_0(_mask) != 0) && (log2(_mask) >= qubitCount)) {
+        throw std::invalid_argument("QInterface::PhaseParity mask out-of-bounds!");
+    }
+
     if (bi_compare_0(_mask) == 0) {
         return;
     }
diff --git a/src/qinterface/qinterface.cpp b/src/qinterface/qinterface.cpp
index 1ecbd62..cfbcb27 100644
--- a/src/qinterface/qinterface.cpp
+++ b/src/qinterface/qinterface.cpp
@@ -212,6 +212,10 @@ void QInterface::SetReg(bitLenInt start, bitLenInt length, const bitCapInt& valu
 /// Bit-wise apply measurement gate to a register
 bitCapInt QInterface::ForceMReg(bitLenInt start, bitLenInt length, const bitCapInt& result, bool doForce, bool doApply)
 {
+    if (isBadBitRange(start, length, qubitCount)) {
+        throw std::invalid_argument("QInterface::ForceMReg range is out-of-bounds!");
+    }
+
     bitCapInt res = ZERO_BCI;
     for (bitLenInt bit = 0U; bit < length; ++bit) {
         const bitCapInt power = pow2(bit);
@@ -270,6 +274,10 @@ bitCapInt QInterface::ForceM(const std::vector<bitLenInt>& bits, const std::vect
 /// Returns probability of permutation of the register
 real1_f QInterface::ProbReg(bitLenInt start, bitLenInt length, const bitCapInt& permutation)
 {
+    if (isBadBitRange(start, length, qubitCount)) {
+        throw std::invalid_argument("QInterface::ProbReg register range is out-of-bounds!");
+    }
+
     const bitCapIntOcl startMask = pow2Ocl(start) - 1U;
     const bitCapIntOcl maxLcv = (bitCapIntOcl)(maxQPower >> length);
     const bitCapIntOcl p = (bitCapIntOcl)permutation;
@@ -286,6 +294,10 @@ real1_f QInterface::ProbReg(bitLenInt start, bitLenInt length, const bitCapInt&
 /// Returns probability of permutation of the mask
 real1_f QInterface::ProbMask(const bitCapInt& mask, const bitCapInt& permutation)
 {
+    if ((bi_compare_0(mask) != 0) && (log2(mask) >= qubitCount)) {
+        throw std::invalid_argument("QInterface::ProbMask mask out-of-bounds!");
+    }
+
     if (bi_compare(maxQPower - ONE_BCI, mask) == 0) {
         return ProbAll(permutation);
     }
@@ -303,6 +315,10 @@ real1_f QInterface::ProbMask(const bitCapInt& mask, const bitCapInt& permutation
 /// "Circular shift right" - (Uses swap-based algorithm for speed)
 void QInterface::ROL(bitLenInt shift, bitLenInt start, bitLenInt length)
 {
+    if (isBadBitRange(start, length, qubitCount)) {
+        throw std::invalid_argument("QInterface::ROL register range is out-of-bounds!");
+    }
+
     if (length < 2U) {
         return;
     }
@@ -322,6 +338,10 @@ void QInterface::ROL(bitLenInt shift, bitLenInt start, bitLenInt length)
 /// "Circular shift right" - shift bits right, and carry first bits.
 void QInterface::ROR(bitLenInt shift, bitLenInt start, bitLenInt length)
 {
+    if (isBadBitRange(start, length, qubitCount)) {
+        throw std::invalid_argument("QInterface::ROR register range is out-of-bounds!");
+    }
+
     if (length < 2U) {
         return;
     }
@@ -406,6 +426,10 @@ void QInterface::LSR(bitLenInt shift, bitLenInt start, bitLenInt length)
 
 bitLenInt QInterface::Compose(QInterfacePtr toCopy, bitLenInt start)
 {
+    if (start > qubitCount) {
+        throw std::invalid_argument("QInterface::Compose start index is out-of-bounds!");
+    }
+
     if (start == qubitCount) {
         return Compose(toCopy);
     }
@@ -429,6 +453,10 @@ std::map<QInterfacePtr, bitLenInt> QInterface::Compose(std::vector<QInterfacePtr
 
 void QInterface::ProbMaskAll(const bitCapInt& mask, real1* probsArray)
 {
+    if ((bi_compare_0(mask) != 0) && (log2(mask) >= qubitCount)) {
+        throw std::invalid_argument("QInterface::ProbMaskAll mask out-of-bounds!");
+    }
+
     bitCapInt v = mask; // count the number of bits set in v
     std::vector<bitCapInt> bitPowers;
     while (bi_compare_0(v) != 0) {
@@ -452,6 +480,9 @@ void QInterface::ProbMaskAll(const bitCapInt& mask, real1* probsArray)
 
 void QInterface::ProbBitsAll(const std::vector<bitLenInt>& bits, real1* probsArray)
 {
+    ThrowIfQbIdArrayIsBad(
+        bits, qubitCount, "QInterface::ProbBitsAll parameter bits array values must be within allocated qubit bounds!");
+
     if (bits.size() == qubitCount) {
         bool isOrdered = true;
         for (bitLenInt i = 0U; i < qubitCount; ++i) {
@@ -485,6 +516,9 @@ void QInterface::ProbBitsAll(const std::vector<bitLenInt>& bits, real1* probsArr
 real1_f QInterface::ExpVarUnitaryAll(bool isExp, const std::vector<bitLenInt>& bits,
     const std::vector<std::shared_ptr<complex>>& basisOps, std::vector<real1_f> eigenVals)
 {
+    ThrowIfQbIdArrayIsBad(bits, qubitCount,
+        "QInterface::ExpVarUnitaryAll parameter qubit array values must be within allocated qubit bounds!");
+
     if (bits.empty()) {
         return ONE_R1;
     }
@@ -518,6 +552,9 @@ real1_f QInterface::ExpVarUnitaryAll(bool isExp, const std::vector<bitLenInt>& b
 real1_f QInterface::ExpVarUnitaryAll(bool isExp, const std::vector<bitLenInt>& bits,
     const std::vector<real1_f>& basisOps, std::vector<real1_f> eigenVals)
 {
+    ThrowIfQbIdArrayIsBad(bits, qubitCount,
+        "QInterface::ExpVarUnitaryAll parameter qubit array values must be within allocated qubit bounds!");
+
     if (bits.empty()) {
         return ONE_R1;
     }
@@ -667,6 +704,9 @@ real1_f QInterface::VarianceFloatsFactorized(const std::vector<bitLenInt>& bits,
 
 real1_f QInterface::VariancePauliAll(std::vector<bitLenInt> bits, std::vector<Pauli> paulis)
 {
+    ThrowIfQbIdArrayIsBad(bits, qubitCount,
+        "QInterface::VariancePauliAll parameter qubit array values must be within allocated qubit bounds!");
+
     for (size_t i = bits.size(); i > 0U; --i) {
         const size_t j = i - 1U;
         if (paulis[j] == PauliI) {
@@ -723,6 +763,9 @@ real1_f QInterface::VariancePauliAll(std::vector<bitLenInt> bits, std::vector<Pa
 
 real1_f QInterface::ExpectationPauliAll(std::vector<bitLenInt> bits, std::vector<Pauli> paulis)
 {
+    ThrowIfQbIdArrayIsBad(bits, qubitCount,
+        "QInterface::ExpectationPauliAll parameter qubit array values must be within allocated qubit bounds!");
+
     for (size_t i = bits.size(); i > 0U; --i) {
         const size_t j = i - 1U;
         if (paulis[j] == PauliI) {
@@ -819,6 +862,13 @@ std::map<bitCapInt, int> QInterface::MultiShotMeasureMask(const std::vector<bitC
         return std::map<bitCapInt, int>();
     }
 
+    for (const bitCapInt& qPower : qPowers) {
+        if (log2(qPower) >= qubitCount) {
+            throw std::invalid_argument("QInterface::MultiShotMeasureMask parameter qPowers array values must be "
+                                        "within allocated qubit bounds!");
+        }
+    }
+
     std::map<bitCapInt, int> results;
     std::mutex resultsMutex;
     par_for(0U, shots, [&](const bitCapIntOcl& shot, const unsigned& cpu) {
@@ -837,6 +887,13 @@ void QInterface::MultiShotMeasureMask(
         return;
     }
 
+    for (const bitCapInt& qPower : qPowers) {
+        if (log2(qPower) >= qubitCount) {
+            throw std::invalid_argument("QInterface::MultiShotMeasureMask parameter qPowers array values must be "
+                                        "within allocated qubit bounds!");
+        }
+    }
+
     par_for(0U, shots, [&](const bitCapIntOcl& shot, const unsigned& cpu) {
         shotsArray[shot] = (unsigned long long)(bitCapIntOcl)SampleClone(qPowers);
     });
-- 
2.43.0


From 00edee0bdfeb3366bde1a199c7b481bccf6b1a45 Mon Sep 17 00:00:00 2001
From: dev <dev@local>
Date: Fri, 20 Nov 2026 00:17:56 +0000
Subject: [PATCH 35/49] fix: QUnit validates target, divisor, output range and
 sampled bits before changing the register

---
 src/qunit.cpp | 44 +++++++++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index 9bd36d5..dbe7821 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -1723,6 +1723,13 @@ void QUnit::MultiShotMeasureMask(const std::vector<bitCapInt>& qPowers, unsigned
     }
 
     if (qPowers.size() != shards.size()) {
+        for (const bitCapInt& qPower : qPowers) {
+            if (log2(qPower) >= qubitCount) {
+                throw std::invalid_argument("QUnit::MultiShotMeasureMask parameter qPowers array values must be within "
+                                            "allocated qubit bounds!");
+            }
+        }
+
         ToPermBasisProb();
 
         QInterfacePtr unit = shards[log2(qPowers[0U])].unit;
@@ -1731,11 +1738,6 @@ void QUnit::MultiShotMeasureMask(const std::vector<bitCapInt>& qPowers, unsigned
             mappedIndices[0U] = pow2(shards[log2(qPowers[0U])].mapped);
             for (size_t i = 1U; i < qPowers.size(); ++i) {
                 const size_t qubit = log2(qPowers[i]);
-                if (qubit >= qubitCount) {
-                    throw std::invalid_argument(
-                        "QUnit::MultiShotMeasureMask parameter qPowers array values must be within "
-                        "allocated qubit bounds!");
-                }
                 if (unit != shards[qubit].unit) {
                     unit = nullptr;
                     break;
@@ -2315,6 +2317,10 @@ void QUnit::UCPhase(const std::vector<bitLenInt>& lControls, const complex& topL
     ThrowIfQbIdArrayIsBad(
         lControls, qubitCount, "QUnit::UCPhase parameter controls array values must be within allocated qubit bounds!");
 
+    if (target >= qubitCount) {
+        throw std::invalid_argument("QUnit::UCPhase qubit index parameter must be within allocated qubit bounds!");
+    }
+
     if (IS_1_CMPLX(topLeft) && IS_1_CMPLX(bottomRight)) {
         return;
     }
@@ -2338,10 +2344,6 @@ void QUnit::UCPhase(const std::vector<bitLenInt>& lControls, const complex& topL
         return;
     }
 
-    if (target >= qubitCount) {
-        throw std::invalid_argument("QUnit::UCPhase qubit index parameter must be within allocated qubit bounds!");
-    }
-
     if (!freezeBasis2Qb && (controlVec.size() == 1U)) {
         bitLenInt control = controlVec[0U];
         QEngineShard& cShard = shards[control];
@@ -2508,6 +2510,10 @@ void QUnit::UCMtrx(
     ThrowIfQbIdArrayIsBad(
         controls, qubitCount, "QUnit::UCMtrx parameter controls array values must be within allocated qubit bounds!");
 
+    if (target >= qubitCount) {
+        throw std::invalid_argument("QUnit::UCMtrx qubit index parameter must be within allocated qubit bounds!");
+    }
+
     std::vector<bitLenInt> controlVec;
     bitCapInt controlPerm = _controlPerm;
     if (TrimControls(controls, controlVec, &controlPerm)) {
@@ -2518,10 +2524,6 @@ void QUnit::UCMtrx(
         return Mtrx(mtrx, target);
     }
 
-    if (target >= qubitCount) {
-        throw std::invalid_argument("QUnit::UCMtrx qubit index parameter must be within allocated qubit bounds!");
-    }
-
     CTRLED_GEN_WRAP(UCMtrx(CTRL_GEN_ARGS));
 }
 
@@ -3297,6 +3299,10 @@ void QUnit::DIV(const bitCapInt& toDiv, bitLenInt inOutStart, bitLenInt carrySta
         throw std::invalid_argument("QUnit::MUL carryStart range is out-of-bounds!");
     }
 
+    if (bi_compare_0(toDiv) == 0) {
+        throw std::invalid_argument("QUnit::DIV by zero");
+    }
+
     // Keep the bits separate, if cheap to do so:
     if (bi_compare_1(toDiv) == 0) {
         return;
@@ -3455,6 +3461,10 @@ void QUnit::CDIV(const bitCapInt& toMod, bitLenInt start, bitLenInt carryStart,
     ThrowIfQbIdArrayIsBad(
         controls, qubitCount, "QUnit::CDIV parameter controls array values must be within allocated qubit bounds!");
 
+    if (bi_compare_0(toMod) == 0) {
+        throw std::invalid_argument("QUnit::CDIV by zero");
+    }
+
     // Try to optimize away the whole gate, or as many controls as is opportune.
     std::vector<bitLenInt> controlVec;
     bitCapInt _perm = pow2(controls.size());
@@ -3477,15 +3487,19 @@ void QUnit::CPOWModNOut(const bitCapInt& toMod, const bitCapInt& modN, bitLenInt
         return POWModNOut(toMod, modN, inStart, outStart, length);
     }
 
-    SetReg(outStart, length, ZERO_BCI);
-
     if (isBadBitRange(inStart, length, qubitCount)) {
         throw std::invalid_argument("QUnit::CPOWModNOut inStart range is out-of-bounds!");
     }
 
+    if (isBadBitRange(outStart, length, qubitCount)) {
+        throw std::invalid_argument("QUnit::CPOWModNOut outStart range is out-of-bounds!");
+    }
+
     ThrowIfQbIdArrayIsBad(controls, qubitCount,
         "QUnit::CPOWModNOut parameter controls array values must be within allocated qubit bounds!");
 
+    SetReg(outStart, length, ZERO_BCI);
+
     // Try to optimize away the whole gate, or as many controls as is opportune.
     std::vector<bitLenInt> controlVec;
     bitCapInt _perm = pow2(controls.size());
-- 
2.43.0


From dfa6e5bbc43d72f842fe6841fda91ae906fdd5f3 Mon Sep 17 00:00:00 2001
From: dev <dev@local>
Date: Fri, 20 Nov 2026 00:17:57 +0000
Subject: [PATCH 36/49] fix: QPager rejects out-of-range qubits, masks, basis
 indices and pages instead of reading past its pages

---
 include/qpager.hpp | 12 ++++++++
 src/qpager.cpp     | 69 ++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 81 insertions(+)

diff --git a/include/qpager.hpp b/include/qpager.hpp
index 7683183..4c2bb96 100644
--- a/include/qpager.hpp
+++ b/include/qpager.hpp
@@ -305,18 +305,30 @@ public:
     void GetProbs(real1* outputProbs);
     complex GetAmplitude(const bitCapInt& perm)
     {
+        if (bi_compare(perm, maxQPower) >= 0) {
+            throw std::invalid_argument("QPager::GetAmplitude argument out-of-bounds!");
+        }
+
         bitCapInt p, a;
         bi_div_mod(perm, pageMaxQPower(), &p, &a);
         return qPages[(bitCapIntOcl)p]->GetAmplitude(a);
     }
     void SetAmplitude(const bitCapInt& perm, const complex& amp)
     {
+        if (bi_compare(perm, maxQPower) >= 0) {
+            throw std::invalid_argument("QPager::SetAmplitude argument out-of-bounds!");
+        }
+
         bitCapInt p, a;
         bi_div_mod(perm, pageMaxQPower(), &p, &a);
         qPages[(bitCapIntOcl)p]->SetAmplitude(a, amp);
     }
     real1_f ProbAll(const bitCapInt& perm)
     {
+        if (bi_compare(perm, maxQPower) >= 0) {
+            throw std::invalid_argument("QPager::ProbAll argument out-of-bounds!");
+        }
+
         bitCapInt p, a;
         bi_div_mod(perm, pageMaxQPower(), &p, &a);
         return qPages[(bitCapIntOcl)p]->ProbAll(a);
diff --git a/src/qpager.cpp b/src/qpager.cpp
index d0dfb5b..82bb21f 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -289,6 +289,10 @@ QEnginePtr QPager::MakeEngine(bitLenInt length, bitCapIntOcl pageId)
 
 void QPager::GetSetAmplitudePage(complex* pagePtr, const complex* cPagePtr, bitCapIntOcl offset, bitCapIntOcl length)
 {
+    if (isBadPermRange(offset, length, maxQPowerOcl)) {
+        throw std::invalid_argument("QPager::GetSetAmplitudePage range is out-of-bounds!");
+    }
+
     const bitCapIntOcl pageLength = (bitCapIntOcl)pageMaxQPower();
     bitCapIntOcl perm = 0U;
     const bitCapIntOcl end = offset + length;
@@ -755,6 +759,10 @@ void QPager::Dispose(bitLenInt start, bitLenInt length, const bitCapInt& dispose
 
 bitLenInt QPager::Allocate(bitLenInt start, bitLenInt length)
 {
+    if (start > qubitCount) {
+        throw std::invalid_argument("QPager::Allocate argument is out-of-bounds!");
+    }
+
     if (!length) {
         return start;
     }
@@ -895,6 +903,10 @@ void QPager::SetPermutation(const bitCapInt& perm, const complex& phaseFac)
 
 void QPager::Mtrx(const complex* mtrx, bitLenInt target)
 {
+    if (target >= qubitCount) {
+        throw std::invalid_argument("QPager::Mtrx qubit index parameter must be within allocated qubit bounds!");
+    }
+
     if (IS_NORM_0(mtrx[1U]) && IS_NORM_0(mtrx[2U])) {
         return Phase(mtrx[0U], mtrx[3U], target);
     }
@@ -908,6 +920,11 @@ void QPager::Mtrx(const complex* mtrx, bitLenInt target)
 
 void QPager::ApplySingleEither(bool isInvert, const complex& _top, const complex& _bottom, bitLenInt target)
 {
+    if (target >= qubitCount) {
+        throw std::invalid_argument(
+            "QPager::ApplySingleEither qubit index parameter must be within allocated qubit bounds!");
+    }
+
     bitLenInt qpp = qubitsPerPage();
 
     if (target < qpp) {
@@ -957,6 +974,14 @@ void QPager::ApplyEitherControlledSingleBit(
         return Mtrx(mtrx, target);
     }
 
+    ThrowIfQbIdArrayIsBad(controls, qubitCount,
+        "QPager::ApplyEitherControlledSingleBit control index values must be within allocated qubit bounds!");
+
+    if (target >= qubitCount) {
+        throw std::invalid_argument(
+            "QPager::ApplyEitherControlledSingleBit qubit index parameter must be within allocated qubit bounds!");
+    }
+
     const bitLenInt qpp = qubitsPerPage();
 
     std::vector<bitLenInt> metaControls;
@@ -1000,17 +1025,32 @@ void QPager::ApplyEitherControlledSingleBit(
 
 void QPager::UniformParityRZ(const bitCapInt& mask, real1_f angle)
 {
+    if (bi_compare(mask, maxQPower) >= 0) {
+        throw std::invalid_argument("QPager::UniformParityRZ mask out-of-bounds!");
+    }
+
     CombineAndOp([&](QEnginePtr engine) { engine->UniformParityRZ(mask, angle); }, { log2(mask) });
 }
 
 void QPager::CUniformParityRZ(const std::vector<bitLenInt>& controls, const bitCapInt& mask, real1_f angle)
 {
+    if (bi_compare(mask, maxQPower) >= 0) {
+        throw std::invalid_argument("QPager::CUniformParityRZ mask out-of-bounds!");
+    }
+
+    ThrowIfQbIdArrayIsBad(
+        controls, qubitCount, "QPager::CUniformParityRZ control index values must be within allocated qubit bounds!");
+
     CombineAndOpControlled(
         [&](QEnginePtr engine) { engine->CUniformParityRZ(controls, mask, angle); }, { log2(mask) }, controls);
 }
 
 void QPager::XMask(const bitCapInt& mask)
 {
+    if (bi_compare(mask, maxQPower) >= 0) {
+        throw std::invalid_argument("QPager::XMask mask out-of-bounds!");
+    }
+
     const bitCapIntOcl pageMask = pageMaxQPower() - 1U;
     const bitCapIntOcl intraMask = (bitCapIntOcl)mask & pageMask;
     bitCapIntOcl interMask = (bitCapIntOcl)mask ^ intraMask;
@@ -1030,6 +1070,10 @@ void QPager::XMask(const bitCapInt& mask)
 
 void QPager::PhaseParity(real1_f radians, const bitCapInt& mask)
 {
+    if (bi_compare(mask, maxQPower) >= 0) {
+        throw std::invalid_argument("QPager::PhaseParity mask out-of-bounds!");
+    }
+
     const bitCapIntOcl parityStartSize = 4U * sizeof(bitCapIntOcl);
     const bitCapIntOcl pageMask = pageMaxQPower() - 1U;
     const bitCapIntOcl intraMask = (bitCapIntOcl)mask & pageMask;
@@ -1058,6 +1102,10 @@ void QPager::PhaseParity(real1_f radians, const bitCapInt& mask)
 
 bool QPager::ForceM(bitLenInt qubit, bool result, bool doForce, bool doApply)
 {
+    if (qubit >= qubitCount) {
+        throw std::invalid_argument("QPager::ForceM qubit index parameter must be within allocated qubit bounds!");
+    }
+
     if (qPages.size() == 1U) {
         return qPages[0U]->ForceM(qubit, result, doForce, doApply);
     }
@@ -1315,6 +1363,10 @@ void QPager::MetaSwap(bitLenInt qubit1, bitLenInt qubit2, bool isIPhaseFac, bool
 
 void QPager::Swap(bitLenInt qubit1, bitLenInt qubit2)
 {
+    if ((qubit1 >= qubitCount) || (qubit2 >= qubitCount)) {
+        throw std::invalid_argument("QPager::Swap qubit index parameters must be within allocated qubit bounds!");
+    }
+
     if (qubit1 == qubit2) {
         return;
     }
@@ -1340,6 +1392,11 @@ void QPager::Swap(bitLenInt qubit1, bitLenInt qubit2)
 }
 void QPager::EitherISwap(bitLenInt qubit1, bitLenInt qubit2, bool isInverse)
 {
+    if ((qubit1 >= qubitCount) || (qubit2 >= qubitCount)) {
+        throw std::invalid_argument(
+            "QPager::EitherISwap qubit index parameters must be within allocated qubit bounds!");
+    }
+
     if (qubit1 == qubit2) {
         return;
     }
@@ -1397,6 +1454,10 @@ void QPager::EitherISwap(bitLenInt qubit1, bitLenInt qubit2, bool isInverse)
 }
 void QPager::FSim(real1_f theta, real1_f phi, bitLenInt qubit1, bitLenInt qubit2)
 {
+    if ((qubit1 >= qubitCount) || (qubit2 >= qubitCount)) {
+        throw std::invalid_argument("QPager::FSim qubit index parameters must be within allocated qubit bounds!");
+    }
+
     if (qubit1 == qubit2) {
         return;
     }
@@ -1434,6 +1495,10 @@ void QPager::FSim(real1_f theta, real1_f phi, bitLenInt qubit1, bitLenInt qubit2
 
 real1_f QPager::Prob(bitLenInt qubit)
 {
+    if (qubit >= qubitCount) {
+        throw std::invalid_argument("QPager::Prob qubit index parameter must be within allocated qubit bounds!");
+    }
+
     if (qPages.size() == 1U) {
         return qPages[0U]->Prob(qubit);
     }
@@ -1506,6 +1571,10 @@ real1_f QPager::Prob(bitLenInt qubit)
 
 real1_f QPager::ProbMask(const bitCapInt& mask, const bitCapInt& permutation)
 {
+    if (bi_compare(mask, maxQPower) >= 0) {
+        throw std::invalid_argument("QPager::ProbMask mask out-of-bounds!");
+    }
+
     CombineEngines(log2(mask) + 1U);
     real1_f maskChance = ZERO_R1_F;
     for (const QEnginePtr& qPage : qPages) {
-- 
2.43.0


From a0b78a278910c238d8358213d65674bacfffd1a6 Mon Sep 17 00:00:00 2001
From: dev <dev@local>
Date: Fri, 20 Nov 2026 00:17:57 +0000
Subject: [PATCH 37/49] fix: QStabilizer and QUnitClifford reject out-of-range
 basis indices, masks, controls and sampled bits

---
 include/qstabilizer.hpp   |  5 +++++
 include/qunitclifford.hpp |  2 ++
 src/qstabilizer.cpp       | 11 +++++++++++
 src/qunitclifford.cpp     | 21 ++++++++++++++++-----
 4 files changed, 34 insertions(+), 5 deletions(-)

diff --git a/include/qstabilizer.hpp b/include/qstabilizer.hpp
index ef8e804..687eef9 100644
--- a/include/qstabilizer.hpp
+++ b/include/qstabilizer.hpp
@@ -494,6 +494,11 @@ public:
     bool TrySeparate(bitLenInt qubit) { return CanDecomposeDispose(qubit, 1U); }
     bool TrySeparate(bitLenInt qubit1, bitLenInt qubit2)
     {
+        if ((qubit1 >= qubitCount) || (qubit2 >= qubitCount)) {
+            throw std::invalid_argument(
+                "QStabilizer::TrySeparate qubit index parameters must be within allocated qubit bounds!");
+        }
+
         if (qubit2 < qubit1) {
             std::swap(qubit1, qubit2);
         }
diff --git a/include/qunitclifford.hpp b/include/qunitclifford.hpp
index 995227e..57b4a37 100644
--- a/include/qunitclifford.hpp
+++ b/include/qunitclifford.hpp
@@ -290,6 +290,7 @@ public:
     /// Apply a CNOT gate with control and target
     void CNOT(bitLenInt c, bitLenInt t)
     {
+        ThrowIfQubitInvalid(c, "QUnitClifford::CNOT");
         H(t);
         if (IsSeparableZ(t)) {
             CZ(c, t);
@@ -326,6 +327,7 @@ public:
     /// Apply an (anti-)CNOT gate with control and target
     void AntiCNOT(bitLenInt c, bitLenInt t)
     {
+        ThrowIfQubitInvalid(c, "QUnitClifford::AntiCNOT");
         H(t);
         if (IsSeparableZ(t)) {
             AntiCZ(c, t);
diff --git a/src/qstabilizer.cpp b/src/qstabilizer.cpp
index b8e62a5..2c130dd 100644
--- a/src/qstabilizer.cpp
+++ b/src/qstabilizer.cpp
@@ -562,6 +562,10 @@ void QStabilizer::GetProbs(real1* outputProbs)
 /// Convert the state to ket notation (warning: could be huge!)
 complex QStabilizer::GetAmplitude(const bitCapInt& perm)
 {
+    if ((bi_compare_0(perm) != 0) && (log2(perm) >= qubitCount)) {
+        throw std::invalid_argument("QStabilizer::GetAmplitude argument out-of-bounds!");
+    }
+
     Finish();
 
     // log_2 of number of nonzero basis states
@@ -885,6 +889,10 @@ real1_f QStabilizer::ProbPermRdm(const bitCapInt& _perm, bitLenInt ancillaeStart
 
 real1_f QStabilizer::ProbMask(const bitCapInt& mask, const bitCapInt& perm)
 {
+    if ((bi_compare_0(mask) != 0) && (log2(mask) >= qubitCount)) {
+        throw std::invalid_argument("QStabilizer::ProbMask argument out-of-bounds!");
+    }
+
     Finish();
 
     // log_2 of number of nonzero basis states
@@ -2397,6 +2405,9 @@ void QStabilizer::FSim(real1_f theta, real1_f phi, bitLenInt qubit1, bitLenInt q
 
 bool QStabilizer::TrySeparate(const std::vector<bitLenInt>& qubits, real1_f ignored)
 {
+    ThrowIfQbIdArrayIsBad(
+        qubits, qubitCount, "QStabilizer::TrySeparate qubit index values must be within allocated qubit bounds!");
+
     std::vector<bitLenInt> lQubits(qubits);
     std::sort(lQubits.begin(), lQubits.end());
 
diff --git a/src/qunitclifford.cpp b/src/qunitclifford.cpp
index 2e05439..bed38e0 100644
--- a/src/qunitclifford.cpp
+++ b/src/qunitclifford.cpp
@@ -154,6 +154,10 @@ real1_f QUnitClifford::ProbPermRdm(const bitCapInt& perm, bitLenInt ancillaeStar
 
 real1_f QUnitClifford::ProbMask(const bitCapInt& mask, const bitCapInt& perm)
 {
+    if ((bi_compare_0(mask) != 0) && (log2(mask) >= qubitCount)) {
+        throw std::invalid_argument("QUnitClifford::ProbMask argument out-of-bounds!");
+    }
+
     bitCapInt v = mask; // count the number of bits set in v
     std::vector<bitLenInt> bits;
     while (bi_compare_0(v) != 0) {
@@ -708,6 +712,13 @@ void QUnitClifford::MultiShotMeasureMask(
         return;
     }
 
+    for (const bitCapInt& qPower : qPowers) {
+        if (log2(qPower) >= qubitCount) {
+            throw std::invalid_argument("QUnitClifford::MultiShotMeasureMask parameter qPowers array values must be "
+                                        "within allocated qubit bounds!");
+        }
+    }
+
     if (qPowers.size() != shards.size()) {
         QStabilizerPtr unit = shards[log2(qPowers[0U])].unit;
         if (unit) {
@@ -720,11 +731,6 @@ void QUnitClifford::MultiShotMeasureMask(
             }
             for (size_t i = 1U; i < qPowers.size(); ++i) {
                 const size_t qubit = log2(qPowers[i]);
-                if (qubit >= qubitCount) {
-                    throw std::invalid_argument(
-                        "QUnit::MultiShotMeasureMask parameter qPowers array values must be within "
-                        "allocated qubit bounds!");
-                }
                 if (unit != shards[qubit].unit) {
                     unit = nullptr;
                     break;
@@ -813,6 +819,11 @@ real1_f QUnitClifford::SumSqrDiff(QUnitCliffordPtr toCompare)
 
 bool QUnitClifford::TrySeparate(bitLenInt qubit)
 {
+    if (qubit >= qubitCount) {
+        throw std::invalid_argument(
+            "QUnitClifford::TrySeparate qubit index parameter must be within allocated qubit bounds!");
+    }
+
     CliffordShard& shard = shards[qubit];
 
     if (shard.unit->GetQubitCount() <= 1U) {
-- 
2.43.0


From 2465de5b7bf897fc0b94872f64d8dc221c17feb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:39 +0000
Subject: [PATCH 38/49] fix: QUnit leaves the phase buffers of a qubit in place
 while they are being applied

---
 include/qunit.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/qunit.hpp b/include/qunit.hpp
index 9e2beb6..38cc8fd 100644
--- a/include/qunit.hpp
+++ b/include/qunit.hpp
@@ -1011,6 +1011,11 @@ protected:
 
     void Flush0Eigenstate(bitLenInt i)
     {
+        if (freezeBasis2Qb) {
+            // The buffers of this qubit are being applied: they must not change sides meanwhile.
+            return;
+        }
+
         QEngineShard& shard = shards[i];
         shard.DumpControlOf();
         if (randGlobalPhase) {
@@ -1020,6 +1025,11 @@ protected:
     }
     void Flush1Eigenstate(bitLenInt i)
     {
+        if (freezeBasis2Qb) {
+            // The buffers of this qubit are being applied: they must not change sides meanwhile.
+            return;
+        }
+
         QEngineShard& shard = shards[i];
         shard.DumpAntiControlOf();
         if (randGlobalPhase) {
-- 
2.43.0


From 27ae40f995810acc26f6c889746dd88c957018dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:10 +0000
Subject: [PATCH 39/49] fix: reading a QStabilizerHybrid stream counts the
 ancillae it drops

---
 src/qstabilizerhybrid.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qstabilizerhybrid.cpp b/src/qstabilizerhybrid.cpp
index ce245d6..2f87f95 100644
--- a/src/qstabilizerhybrid.cpp
+++ b/src/qstabilizerhybrid.cpp
@@ -2223,6 +2223,7 @@ std::istream& operator>>(std::istream& is, const QStabilizerHybridPtr s)
         if (s->stabilizer->TrySeparate(i)) {
             s->stabilizer->Dispose(i, 1U);
             shards.erase(shards.begin() + i);
+            --(s->ancillaCount);
         }
     }
 
-- 
2.43.0


From c34984470d36b76a92a3c6b6422fa086756368d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:10 +0000
Subject: [PATCH 40/49] fix: QStabilizerHybrid dumps the state of its own
 qubits when only ancillae are left unbuffered

---
 src/qstabilizerhybrid.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qstabilizerhybrid.cpp b/src/qstabilizerhybrid.cpp
index 2f87f95..23fdf3a 100644
--- a/src/qstabilizerhybrid.cpp
+++ b/src/qstabilizerhybrid.cpp
@@ -674,7 +674,7 @@ void QStabilizerHybrid::GetQuantumState(complex* outputState)
         return engine->GetQuantumState(outputState);
     }
 
-    if (!IsBuffered()) {
+    if (!ancillaCount && !deadAncillaCount && !IsBuffered()) {
         return stabilizer->GetQuantumState(outputState);
     }
 
@@ -689,7 +689,7 @@ void QStabilizerHybrid::GetProbs(real1* outputProbs)
         return engine->GetProbs(outputProbs);
     }
 
-    if (!IsProbBuffered()) {
+    if (!ancillaCount && !deadAncillaCount && !IsProbBuffered()) {
         return stabilizer->GetProbs(outputProbs);
     }
 
-- 
2.43.0


From bd3fa6b7e0411aa6c49063f99ef288a26bb49888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:05 +0000
Subject: [PATCH 41/49] fix: QStabilizerHybrid::ForceM forces any possible
 result of a buffered qubit and leaves the state alone when not applied

---
 include/qstabilizerhybrid.hpp |  2 +-
 src/qstabilizerhybrid.cpp     | 59 +++++++++++++++++------------------
 2 files changed, 29 insertions(+), 32 deletions(-)

diff --git a/include/qstabilizerhybrid.hpp b/include/qstabilizerhybrid.hpp
index 06d8c68..601097e 100644
--- a/include/qstabilizerhybrid.hpp
+++ b/include/qstabilizerhybrid.hpp
@@ -84,7 +84,7 @@ protected:
     void InvertBuffer(bitLenInt qubit);
     void FlushH(bitLenInt qubit);
     void FlushIfBlocked(bitLenInt control, bitLenInt target, bool isPhase = false);
-    bool CollapseSeparableShard(bitLenInt qubit);
+    bool CollapseSeparableShard(bitLenInt qubit, bool result, bool doForce, bool doApply);
     bool TrimControls(const std::vector<bitLenInt>& lControls, std::vector<bitLenInt>& output, bool anti = false);
     void CacheEigenstate(bitLenInt target);
     void FlushBuffers();
diff --git a/src/qstabilizerhybrid.cpp b/src/qstabilizerhybrid.cpp
index 23fdf3a..f6fbfb5 100644
--- a/src/qstabilizerhybrid.cpp
+++ b/src/qstabilizerhybrid.cpp
@@ -236,25 +236,32 @@ void QStabilizerHybrid::FlushIfBlocked(bitLenInt control, bitLenInt target, bool
     // Dispose(ancillaIndex, 1U);
 }
 
-bool QStabilizerHybrid::CollapseSeparableShard(bitLenInt qubit)
+bool QStabilizerHybrid::CollapseSeparableShard(bitLenInt qubit, bool result, bool doForce, bool doApply)
 {
-    MpsShardPtr shard = shards[qubit];
-    shards[qubit] = nullptr;
+    MpsShardPtr& shard = shards[qubit];
 
     const bool isZ1 = stabilizer->M(qubit);
-    const real1_f prob = (real1_f)(isZ1 ? norm(shard->gate[3U]) : norm(shard->gate[2U]));
+    const real1_f prob = clampProb((real1_f)(isZ1 ? norm(shard->gate[3U]) : norm(shard->gate[2U])));
 
-    bool result;
-    if (prob <= ZERO_R1) {
+    if (doForce) {
+        if ((result ? prob : (ONE_R1_F - prob)) <= ZERO_R1_F) {
+            // Sorry to throw, but the requested forced result is definitely invalid.
+            throw std::invalid_argument("QStabilizerHybrid::ForceM() forced a measurement result with 0 probability!");
+        }
+    } else if (prob <= ZERO_R1_F) {
         result = false;
-    } else if (prob >= ONE_R1) {
+    } else if (prob >= ONE_R1_F) {
         result = true;
     } else {
         result = (Rand() <= prob);
     }
 
-    if (result != isZ1) {
-        stabilizer->X(qubit);
+    if (doApply) {
+        rdmClone = nullptr;
+        shard = nullptr;
+        if (result != isZ1) {
+            stabilizer->X(qubit);
+        }
     }
 
     return result;
@@ -1522,21 +1529,8 @@ bool QStabilizerHybrid::ForceM(bitLenInt qubit, bool result, bool doForce, bool
 
     if (shard && !shard->IsPhase()) {
         if (stabilizer->IsSeparableZ(qubit)) {
-            if (doForce) {
-                if (doApply) {
-                    if (result != stabilizer->ForceM(qubit, result, true, true)) {
-                        // Sorry to throw, but the requested forced result is definitely invalid.
-                        throw std::invalid_argument(
-                            "QStabilizerHybrid::ForceM() forced a measurement result with 0 probability!");
-                    }
-                    shard = nullptr;
-                }
-
-                return result;
-            }
-
             // Bit was already rotated to Z basis, if separable.
-            return CollapseSeparableShard(qubit);
+            return CollapseSeparableShard(qubit, result, doForce, doApply);
         }
 
         // Otherwise, we have non-Clifford measurement.
@@ -1544,18 +1538,21 @@ bool QStabilizerHybrid::ForceM(bitLenInt qubit, bool result, bool doForce, bool
 
         return engine->ForceM(qubit, result, doForce, doApply);
     }
-    shard = nullptr;
 
-    if (stabilizer->IsSeparable(qubit)) {
-        return stabilizer->ForceM(qubit, result, doForce, doApply);
-    }
+    if (!stabilizer->IsSeparable(qubit)) {
+        FlushCliffordFromBuffers();
 
-    FlushCliffordFromBuffers();
+        if (ancillaCount) {
+            SwitchToEngine();
 
-    if (ancillaCount) {
-        SwitchToEngine();
+            return engine->ForceM(qubit, result, doForce, doApply);
+        }
+    }
 
-        return engine->ForceM(qubit, result, doForce, doApply);
+    if (doApply) {
+        // A phase buffer does not outlive the collapse.
+        rdmClone = nullptr;
+        shards[qubit] = nullptr;
     }
 
     return stabilizer->ForceM(qubit, result, doForce, doApply);
-- 
2.43.0


From 04303f0eae8ef4e345dee685f9c0600c040040d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:05 +0000
Subject: [PATCH 42/49] fix: QStabilizerHybrid reduced-density queries return
 the variance, use the right Y axis and drop stale rounded clones

---
 include/qstabilizerhybrid.hpp | 14 ++++++++------
 src/qstabilizerhybrid.cpp     |  5 +++++
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/qstabilizerhybrid.hpp b/include/qstabilizerhybrid.hpp
index 601097e..ef0f3d8 100644
--- a/include/qstabilizerhybrid.hpp
+++ b/include/qstabilizerhybrid.hpp
@@ -157,16 +157,18 @@ protected:
         const real1 z = (real1)(ONE_R1_F - 2 * stabilizer->Prob(qubit));
         stabilizer->H(qubit);
         const real1 x = (real1)(ONE_R1_F - 2 * stabilizer->Prob(qubit));
-        stabilizer->S(qubit);
-        const real1 y = (real1)(ONE_R1_F - 2 * stabilizer->Prob(qubit));
+        stabilizer->H(qubit);
         stabilizer->IS(qubit);
         stabilizer->H(qubit);
+        const real1 y = (real1)(ONE_R1_F - 2 * stabilizer->Prob(qubit));
+        stabilizer->H(qubit);
+        stabilizer->S(qubit);
 
         std::unique_ptr<complex[]> dMtrx(new complex[4]);
         dMtrx[0] = (ONE_CMPLX + z) / complex((real1)2, ZERO_R1);
         dMtrx[1] = x / complex((real1)2, ZERO_R1) - I_CMPLX * (y / complex((real1)2, ZERO_R1));
         dMtrx[2] = x / complex((real1)2, ZERO_R1) + I_CMPLX * (y / complex((real1)2, ZERO_R1));
-        dMtrx[3] = (ONE_CMPLX + z) / complex((real1)2, ZERO_R1);
+        dMtrx[3] = (ONE_CMPLX - z) / complex((real1)2, ZERO_R1);
         if (shards[qubit]) {
             const complex adj[4]{ std::conj(shards[qubit]->gate[0]), std::conj(shards[qubit]->gate[2]),
                 std::conj(shards[qubit]->gate[1]), std::conj(shards[qubit]->gate[3]) };
@@ -447,7 +449,7 @@ public:
         complex pMtrx[4];
         mul2x2(dMtrx.get(), pauliZ, pMtrx);
 
-        return (ONE_R1 - std::real(pMtrx[0]) + std::real(pMtrx[1])) / 2;
+        return (ONE_R1 - std::real(pMtrx[0]) - std::real(pMtrx[3])) / 2;
     }
 
     real1_f CProbRdm(bitLenInt control, bitLenInt target)
@@ -879,7 +881,7 @@ public:
     real1_f VarianceBitsFactorizedRdm(bool roundRz, const std::vector<bitLenInt>& bits,
         const std::vector<bitCapInt>& perms, const bitCapInt& offset = ZERO_BCI)
     {
-        return ExpVarFactorized(true, false, bits, perms, std::vector<real1_f>(), offset, roundRz);
+        return ExpVarFactorized(false, false, bits, perms, std::vector<real1_f>(), offset, roundRz);
     }
     real1_f VarianceFloatsFactorized(const std::vector<bitLenInt>& bits, const std::vector<real1_f>& weights)
     {
@@ -892,7 +894,7 @@ public:
     real1_f VarianceFloatsFactorizedRdm(
         bool roundRz, const std::vector<bitLenInt>& bits, const std::vector<real1_f>& weights)
     {
-        return ExpVarFactorized(true, true, bits, std::vector<bitCapInt>(), weights, ZERO_BCI, roundRz);
+        return ExpVarFactorized(false, true, bits, std::vector<bitCapInt>(), weights, ZERO_BCI, roundRz);
     }
 
     bool TrySeparate(bitLenInt qubit);
diff --git a/src/qstabilizerhybrid.cpp b/src/qstabilizerhybrid.cpp
index f6fbfb5..8a9708c 100644
--- a/src/qstabilizerhybrid.cpp
+++ b/src/qstabilizerhybrid.cpp
@@ -514,6 +514,8 @@ bitLenInt QStabilizerHybrid::ComposeEither(QStabilizerHybridPtr toCopy, bool wil
 
     const bitLenInt nQubits = qubitCount + toCopy->qubitCount;
 
+    rdmClone = nullptr;
+
     if ((ancillaCount + toCopy->ancillaCount) > maxAncillaCount) {
         SwitchToEngine();
     }
@@ -569,6 +571,8 @@ bitLenInt QStabilizerHybrid::Compose(QStabilizerHybridPtr toCopy, bitLenInt star
     const bitLenInt nQubits = qubitCount + toCopy->qubitCount;
     bitLenInt toRet;
 
+    rdmClone = nullptr;
+
     if (engine) {
         toCopy->SwitchToEngine();
         toRet = engine->Compose(toCopy->engine, start);
@@ -1100,6 +1104,7 @@ void QStabilizerHybrid::ZMask(const bitCapInt& _mask)
 
 void QStabilizerHybrid::Mtrx(const complex* lMtrx, bitLenInt target)
 {
+    rdmClone = nullptr;
     MpsShardPtr shard = shards[target];
     shards[target] = nullptr;
     const bool wasCached = (bool)shard;
-- 
2.43.0


From bd3448e8bd6935c2ca550cd8a9f18944b18286f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:05 +0000
Subject: [PATCH 43/49] fix: QStabilizerHybrid::INCS and DECS flip the phase on
 overflow, as the engines do

---
 include/qstabilizerhybrid.hpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/qstabilizerhybrid.hpp b/include/qstabilizerhybrid.hpp
index ef0f3d8..b75b185 100644
--- a/include/qstabilizerhybrid.hpp
+++ b/include/qstabilizerhybrid.hpp
@@ -600,10 +600,8 @@ public:
     }
     void DECS(const bitCapInt& toSub, bitLenInt start, bitLenInt length, bitLenInt overflowIndex)
     {
-        if (stabilizer) {
-            return QInterface::DECS(toSub, start, length, overflowIndex);
-        }
-
+        // (The phase flip on overflow is not Clifford.)
+        SwitchToEngine();
         engine->DECS(toSub, start, length, overflowIndex);
     }
     void CINC(const bitCapInt& toAdd, bitLenInt inOutStart, bitLenInt length, const std::vector<bitLenInt>& controls)
@@ -616,10 +614,8 @@ public:
     }
     void INCS(const bitCapInt& toAdd, bitLenInt start, bitLenInt length, bitLenInt overflowIndex)
     {
-        if (stabilizer) {
-            return QInterface::INCS(toAdd, start, length, overflowIndex);
-        }
-
+        // (The phase flip on overflow is not Clifford.)
+        SwitchToEngine();
         engine->INCS(toAdd, start, length, overflowIndex);
     }
     void INCDECC(const bitCapInt& toAdd, bitLenInt start, bitLenInt length, bitLenInt carryIndex)
-- 
2.43.0


From 52d7ef51ddbb53f149a7ee63eebbea62e9bc4b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:05 +0000
Subject: [PATCH 44/49] fix: QStabilizerHybrid splits off qubits only after
 post-selecting its ancillae

---
 src/qstabilizerhybrid.cpp | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/qstabilizerhybrid.cpp b/src/qstabilizerhybrid.cpp
index 8a9708c..adadfa0 100644
--- a/src/qstabilizerhybrid.cpp
+++ b/src/qstabilizerhybrid.cpp
@@ -562,10 +562,10 @@ bitLenInt QStabilizerHybrid::Compose(QStabilizerHybridPtr toCopy, bitLenInt star
     if (toCopy->ancillaCount || toCopy->deadAncillaCount) {
         const bitLenInt origSize = qubitCount;
         ROL(origSize - start, 0, qubitCount);
-        const bitLenInt result = Compose(toCopy);
+        Compose(toCopy);
         ROR(origSize - start, 0, qubitCount);
 
-        return result;
+        return start;
     }
 
     const bitLenInt nQubits = qubitCount + toCopy->qubitCount;
@@ -620,16 +620,28 @@ void QStabilizerHybrid::Decompose(bitLenInt start, QStabilizerHybridPtr dest)
 
     const bitLenInt nQubits = qubitCount - length;
 
+    if (ancillaCount || deadAncillaCount) {
+        // The range might be entangled with ancillae.
+        SwitchToEngine();
+    }
+
+    rdmClone = nullptr;
+    dest->rdmClone = nullptr;
+
     if (engine) {
         dest->SwitchToEngine();
         engine->Decompose(start, dest->engine);
+        shards.erase(shards.begin() + start, shards.begin() + start + length);
 
-        return SetQubitCount(qubitCount - length);
+        return SetQubitCount(nQubits);
     }
 
-    if (dest->engine) {
+    if (dest->engine || dest->ancillaCount || dest->deadAncillaCount) {
         dest->engine.reset();
+        dest->ancillaCount = 0U;
+        dest->deadAncillaCount = 0U;
         dest->stabilizer = dest->MakeStabilizer(ZERO_BCI);
+        dest->shards.resize(length);
     }
 
     stabilizer->Decompose(start, dest->stabilizer);
@@ -642,6 +654,13 @@ void QStabilizerHybrid::Dispose(bitLenInt start, bitLenInt length)
 {
     const bitLenInt nQubits = qubitCount - length;
 
+    if (ancillaCount || deadAncillaCount) {
+        // The range might be entangled with ancillae.
+        SwitchToEngine();
+    }
+
+    rdmClone = nullptr;
+
     if (engine) {
         engine->Dispose(start, length);
     } else {
@@ -656,6 +675,13 @@ void QStabilizerHybrid::Dispose(bitLenInt start, bitLenInt length, const bitCapI
 {
     const bitLenInt nQubits = qubitCount - length;
 
+    if (ancillaCount || deadAncillaCount) {
+        // The range might be entangled with ancillae.
+        SwitchToEngine();
+    }
+
+    rdmClone = nullptr;
+
     if (engine) {
         engine->Dispose(start, length, disposedPerm);
     } else {
-- 
2.43.0


From 177f343653aeb042eb7518462e9e3dc297fd893c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:05 +0000
Subject: [PATCH 45/49] fix: QStabilizerHybrid amplitudes sum over every
 buffered qubit and ancilla, on any engine type

---
 src/qstabilizerhybrid.cpp | 137 ++++++++++----------------------------
 1 file changed, 34 insertions(+), 103 deletions(-)

diff --git a/src/qstabilizerhybrid.cpp b/src/qstabilizerhybrid.cpp
index adadfa0..6cb7e37 100644
--- a/src/qstabilizerhybrid.cpp
+++ b/src/qstabilizerhybrid.cpp
@@ -757,7 +757,7 @@ complex QStabilizerHybrid::GetAmplitudeOrProb(const bitCapInt& perm, bool isProb
         RdmCloneFlush(roundingThreshold);
     }
 
-    if ((isProb && !ancillaCount && !IsLogicalProbBuffered()) || !IsBuffered()) {
+    if (!ancillaCount && ((isProb && !IsLogicalProbBuffered()) || !IsBuffered())) {
         const complex toRet = stabilizer->GetAmplitude(perm);
 
         if (isRounded) {
@@ -770,51 +770,30 @@ complex QStabilizerHybrid::GetAmplitudeOrProb(const bitCapInt& perm, bool isProb
         return toRet;
     }
 
+    // Every combination of flips of the bits with (non-phase) buffers contributes to the amplitude.
     std::vector<bitLenInt> indices;
     std::vector<bitCapInt> perms{ perm };
+    complex phaseFac = ONE_CMPLX;
     for (bitLenInt i = 0U; i < qubitCount; ++i) {
         if (!shards[i]) {
             continue;
         }
-        indices.push_back(i);
-        perms.push_back(perm ^ pow2(i));
-    }
-
-    if (!ancillaCount) {
-        std::vector<complex> amps;
-        amps.reserve(perms.size());
-        if (stateMapCache) {
-            for (size_t i = 0U; i < perms.size(); ++i) {
-                amps.push_back(stateMapCache->get(perms[i]));
-            }
-        } else {
-            amps = stabilizer->GetAmplitudes(perms);
-        }
-        complex amp = amps[0U];
-        for (size_t i = 1U; i < amps.size(); ++i) {
-            const bitLenInt j = indices[i - 1U];
-            const complex* mtrx = shards[j]->gate;
-            if (bi_and_1(perm >> j)) {
-                amp = mtrx[2U] * amps[i] + mtrx[3U] * amp;
-            } else {
-                amp = mtrx[0U] * amp + mtrx[1U] * amps[i];
-            }
+        if (shards[i]->IsPhase()) {
+            phaseFac *= bi_and_1(perm >> i) ? shards[i]->gate[3U] : shards[i]->gate[0U];
+            continue;
         }
-
-        if (isRounded) {
-            stabilizer = origStabilizer;
-            ancillaCount = origAncillaCount;
-            deadAncillaCount = origDeadAncillaCount;
-            shards = origShards;
+        indices.push_back(i);
+        const size_t stride = perms.size();
+        const bitCapInt iPow = pow2(i);
+        for (size_t j = 0U; j < stride; ++j) {
+            perms.push_back(perms[j] ^ iPow);
         }
-
-        return amp;
     }
 
-    const bitLenInt aStride = indices.size() + 1U;
+    const size_t aStride = perms.size();
     const bitCapIntOcl ancillaPow = pow2Ocl(ancillaCount);
     for (bitCapIntOcl i = 1U; i < ancillaPow; ++i) {
-        const bitCapInt ancillaPerm = i << qubitCount;
+        const bitCapInt ancillaPerm = (bitCapInt)i << qubitCount;
         for (size_t j = 0U; j < aStride; ++j) {
             perms.push_back(perms[j] | ancillaPerm);
         }
@@ -830,84 +809,36 @@ complex QStabilizerHybrid::GetAmplitudeOrProb(const bitCapInt& perm, bool isProb
         amps = stabilizer->GetAmplitudes(perms);
     }
 
-    std::vector<QInterfaceEngine> et = engineTypes;
-    for (size_t i = 0U; i < et.size(); ++i) {
-        const size_t j = et.size() - (i + 1U);
-        if ((et[j] == QINTERFACE_BDT_HYBRID) || (et[j] == QINTERFACE_BDT)) {
-            et.erase(et.begin() + j);
-        }
-    }
-    if (et.empty()) {
-        et.push_back(QINTERFACE_OPTIMAL_BASE);
-    }
-    QEnginePtr aEngine = std::dynamic_pointer_cast<QEngine>(
-        CreateQuantumInterface(et, ancillaCount, ZERO_BCI, rand_generator, ONE_CMPLX, false, false, useHostRam, devID,
-            useRDRAND, false, (real1_f)amplitudeFloor, deviceIDs, thresholdQubits, separabilityThreshold));
-
-#if ENABLE_COMPLEX_X2
-    std::vector<complex2> top;
-    std::vector<complex2> bottom;
-    // For variable scoping, only:
-    if (true) {
-        complex amp = amps[0U];
-        for (bitLenInt i = 1U; i < aStride; ++i) {
-            const bitLenInt j = indices[i - 1U];
-            const complex* mtrx = shards[j]->gate;
-            top.emplace_back(mtrx[0U], mtrx[1U]);
-            bottom.emplace_back(mtrx[3U], mtrx[2U]);
-            complex2 amp2(amp, amps[i]);
-            if (bi_and_1(perm >> j)) {
-                amp2 = amp2 * bottom.back();
-            } else {
-                amp2 = amp2 * top.back();
-            }
-            amp = amp2.c(0U) + amp2.c(1U);
-        }
-        aEngine->SetAmplitude(0U, amp);
-    }
-    for (bitCapIntOcl a = 1U; a < ancillaPow; ++a) {
-        const bitCapIntOcl offset = a * aStride;
-        complex amp = amps[offset];
-        for (bitLenInt i = 1U; i < aStride; ++i) {
-            const bitLenInt j = indices[i - 1U];
-            complex2 amp2(amp, amps[i]);
-            if (bi_and_1(perm >> j)) {
-                amp2 = amp2 * bottom[j];
-            } else {
-                amp2 = amp2 * top[j];
-            }
-            amp = amp2.c(0U) + amp2.c(1U);
-        }
-        aEngine->SetAmplitude(a, amp);
-    }
-    top.clear();
-    bottom.clear();
-#else
+    // Sum over the flips of one buffered bit at a time, for each ancilla permutation.
     for (bitCapIntOcl a = 0U; a < ancillaPow; ++a) {
-        const bitCapIntOcl offset = a * aStride;
-        complex amp = amps[offset];
-        for (bitLenInt i = 1U; i < aStride; ++i) {
+        const size_t offset = (size_t)a * aStride;
+        for (size_t i = indices.size(); i > 0U; --i) {
             const bitLenInt j = indices[i - 1U];
             const complex* mtrx = shards[j]->gate;
-            const complex oAmp = amps[i + offset];
-            if (bi_and_1(perm >> j)) {
-                amp = mtrx[3U] * amp + mtrx[2U] * oAmp;
-            } else {
-                amp = mtrx[0U] * amp + mtrx[1U] * oAmp;
+            const complex keep = bi_and_1(perm >> j) ? mtrx[3U] : mtrx[0U];
+            const complex flip = bi_and_1(perm >> j) ? mtrx[2U] : mtrx[1U];
+            const size_t stride = (size_t)1U << (i - 1U);
+            for (size_t k = 0U; k < stride; ++k) {
+                amps[offset + k] = keep * amps[offset + k] + flip * amps[offset + k + stride];
             }
         }
-        aEngine->SetAmplitude(a, amp);
     }
-#endif
-    amps.clear();
 
-    for (bitLenInt i = 0U; i < ancillaCount; ++i) {
-        const MpsShardPtr& shard = shards[i + qubitCount];
-        if (shard) {
-            aEngine->Mtrx(shard->gate, i);
+    // Act the ancilla buffers, and post-select |0>, one ancilla at a time.
+    for (bitLenInt i = ancillaCount; i > 0U; --i) {
+        const MpsShardPtr& shard = shards[qubitCount + i - 1U];
+        if (!shard) {
+            continue;
+        }
+        const bitCapIntOcl stride = pow2Ocl(i - 1U);
+        for (bitCapIntOcl a = 0U; a < stride; ++a) {
+            amps[(size_t)(a * aStride)] = shard->gate[0U] * amps[(size_t)(a * aStride)] +
+                shard->gate[1U] * amps[(size_t)((a + stride) * aStride)];
         }
     }
 
+    const complex amp = phaseFac * (real1)pow(SQRT2_R1, (real1)ancillaCount) * amps[0U];
+
     if (isRounded) {
         stabilizer = origStabilizer;
         ancillaCount = origAncillaCount;
@@ -915,7 +846,7 @@ complex QStabilizerHybrid::GetAmplitudeOrProb(const bitCapInt& perm, bool isProb
         shards = origShards;
     }
 
-    return (real1)pow(SQRT2_R1, (real1)ancillaCount) * aEngine->GetAmplitude(ZERO_BCI);
+    return amp;
 }
 
 void QStabilizerHybrid::SetQuantumState(const complex* inputState)
-- 
2.43.0


From 908e3595336f04ac9a391e0b05e80d087f75385f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:05 +0000
Subject: [PATCH 46/49] fix: QStabilizerHybrid::CSwap with determined controls
 swaps the buffers, too

---
 src/qstabilizerhybrid.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/qstabilizerhybrid.cpp b/src/qstabilizerhybrid.cpp
index 6cb7e37..9e09395 100644
--- a/src/qstabilizerhybrid.cpp
+++ b/src/qstabilizerhybrid.cpp
@@ -933,9 +933,7 @@ void QStabilizerHybrid::CSwap(const std::vector<bitLenInt>& lControls, bitLenInt
         }
 
         if (controls.empty()) {
-            rdmClone = nullptr;
-
-            return stabilizer->Swap(qubit1, qubit2);
+            return Swap(qubit1, qubit2);
         }
 
         SwitchToEngine();
-- 
2.43.0


From 3056367da606cb9140b0720c0d4dc5820d99a86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:05 +0000
Subject: [PATCH 47/49] fix: QStabilizerHybrid::Prob notices that a buffered
 qubit has become separable

---
 src/qstabilizerhybrid.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/qstabilizerhybrid.cpp b/src/qstabilizerhybrid.cpp
index 9e09395..69b1268 100644
--- a/src/qstabilizerhybrid.cpp
+++ b/src/qstabilizerhybrid.cpp
@@ -1449,6 +1449,11 @@ real1_f QStabilizerHybrid::Prob(bitLenInt qubit)
 
     const MpsShardPtr& shard = shards[qubit];
 
+    if (shard && !shard->IsPhase()) {
+        // If the qubit has become separable since it was buffered, rotate it to Z basis.
+        CacheEigenstate(qubit);
+    }
+
     if (shard && shard->IsInvert()) {
         InvertBuffer(qubit);
     }
-- 
2.43.0


From 38adda81f4d6ad8b067ff5ef3066633a440d561b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:05 +0000
Subject: [PATCH 48/49] fix: QStabilizerHybrid samples its own qubits with
 ancillae present and masks every leftover shot

---
 src/qstabilizerhybrid.cpp | 27 ++++++---------------------
 1 file changed, 6 insertions(+), 21 deletions(-)

diff --git a/src/qstabilizerhybrid.cpp b/src/qstabilizerhybrid.cpp
index 69b1268..2de34e3 100644
--- a/src/qstabilizerhybrid.cpp
+++ b/src/qstabilizerhybrid.cpp
@@ -1569,8 +1569,8 @@ bitCapInt QStabilizerHybrid::MAll()
         RdmCloneFlush(roundingThreshold);
     }
 
-    if (!IsProbBuffered()) {
-        const bitCapInt toRet = stabilizer->MAll();
+    if (!ancillaCount && !IsProbBuffered()) {
+        const bitCapInt toRet = stabilizer->MAll() & (maxQPower - ONE_BCI);
         SetPermutation(toRet);
 
         return toRet;
@@ -1642,7 +1642,7 @@ void QStabilizerHybrid::UniformlyControlledSingleBit(
 
 #define FILL_REMAINING_MAP_SHOTS()                                                                                     \
     if (rng.size()) {                                                                                                  \
-        results[d] += shots - rng.size();                                                                              \
+        CheckShots(shots, d, 2 * ONE_R1_F, qPowers, rng, shotFunc);                                                    \
     }                                                                                                                  \
     stateMapCache = nullptr;
 
@@ -1683,7 +1683,7 @@ std::map<bitCapInt, int> QStabilizerHybrid::MultiShotMeasureMask(const std::vect
 
     std::map<bitCapInt, int> results;
 
-    if (!IsProbBuffered()) {
+    if (!ancillaCount && !IsProbBuffered()) {
         std::mutex resultsMutex;
         par_for(0U, shots, [&](const bitCapIntOcl& shot, const unsigned& cpu) {
             const bitCapInt sample = SampleClone(qPowers);
@@ -1743,27 +1743,12 @@ std::map<bitCapInt, int> QStabilizerHybrid::MultiShotMeasureMask(const std::vect
     return results;
 }
 
-#ifdef __SIZEOF_INT128__
 #define FILL_REMAINING_ARRAY_SHOTS()                                                                                   \
     if (rng.size()) {                                                                                                  \
-        const unsigned long long _d = (unsigned long long)(unsigned __int128)d;                                        \
-        for (size_t shot = 0U; shot < rng.size(); ++shot) {                                                            \
-            shotsArray[shot + (shots - rng.size())] = _d;                                                              \
-        }                                                                                                              \
+        CheckShots(shots, d, 2 * ONE_R1_F, qPowers, rng, shotFunc);                                                    \
     }                                                                                                                  \
     std::shuffle(shotsArray, shotsArray + shots, prng);                                                                \
     stateMapCache = nullptr;
-#else
-#define FILL_REMAINING_ARRAY_SHOTS()                                                                                   \
-    if (rng.size()) {                                                                                                  \
-        const unsigned long long _d = (unsigned long long)(uint64_t)d;                                                 \
-        for (size_t shot = 0U; shot < rng.size(); ++shot) {                                                            \
-            shotsArray[shot + (shots - rng.size())] = _d;                                                              \
-        }                                                                                                              \
-    }                                                                                                                  \
-    std::shuffle(shotsArray, shotsArray + shots, prng);                                                                \
-    stateMapCache = nullptr;
-#endif
 
 void QStabilizerHybrid::MultiShotMeasureMask(
     const std::vector<bitCapInt>& qPowers, unsigned shots, unsigned long long* shotsArray)
@@ -1787,7 +1772,7 @@ void QStabilizerHybrid::MultiShotMeasureMask(
         return roundedClone->MultiShotMeasureMask(qPowers, shots, shotsArray);
     }
 
-    if (!IsProbBuffered()) {
+    if (!ancillaCount && !IsProbBuffered()) {
         return par_for(0U, shots, [&](const bitCapIntOcl& shot, const unsigned& cpu) {
             shotsArray[shot] = (bitCapIntOcl)SampleClone(qPowers);
         });
-- 
2.43.0


From 405b6a3e197c804afbec84d96ee866e61c8cf6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:05 +0000
Subject: [PATCH 49/49] fix: QStabilizerHybrid flushes ancillae without
 approximation unless rounding is asked for

---
 src/qstabilizerhybrid.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/qstabilizerhybrid.cpp b/src/qstabilizerhybrid.cpp
index 2de34e3..ff21a9e 100644
--- a/src/qstabilizerhybrid.cpp
+++ b/src/qstabilizerhybrid.cpp
@@ -1861,9 +1861,12 @@ void QStabilizerHybrid::RdmCloneFlush(real1_f threshold)
 {
     QRACK_CONST complex h[4U]{ SQRT1_2_R1, SQRT1_2_R1, SQRT1_2_R1, -SQRT1_2_R1 };
     for (size_t i = shards.size() - 1U; i >= qubitCount; --i) {
-        // We're going to start by non-destructively "simulating" measurement collapse.
-        MpsShardPtr nShard = shards[i]->Clone();
+        if (!shards[i]) {
+            // There is no buffered phase gate to round.
+            continue;
+        }
 
+        // We're going to start by non-destructively "simulating" measurement collapse.
         for (int p = 0; p < 2; ++p) {
             // Say that we hypothetically collapse ancilla index "i" into state |p>...
             QStabilizerHybridPtr clone = std::dynamic_pointer_cast<QStabilizerHybrid>(Clone());
@@ -1871,12 +1874,17 @@ void QStabilizerHybrid::RdmCloneFlush(real1_f threshold)
             clone->stabilizer->ForceM(i, p);
 
             // Do any other ancillae collapse?
+            MpsShardPtr nShard = shards[i]->Clone();
             nShard->Compose(h);
             bool isCorrected = p;
             for (size_t j = clone->shards.size() - 1U; j >= clone->qubitCount; --j) {
-                if (i == j) {
+                if ((i == j) || !clone->shards[j]) {
                     continue;
                 }
+                if (threshold <= FP_NORM_EPSILON) {
+                    // Combining buffers is approximate, but no rounding is allowed.
+                    break;
+                }
                 const real1_f prob = clone->stabilizer->Prob(j);
                 const MpsShardPtr& oShard = clone->shards[j];
                 oShard->Compose(h);
-- 
2.43.0

