From 562fb3cd373994e12de8c302d28a804bb5547641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:22 +0000
Subject: [PATCH 1/6] fix: row_vector panicked for every matrix with more than
 one row

A row of an N_ROWS x N_COLS matrix has N_COLS elements, but the declared
element count of the returned vector was that of the whole matrix, so its
construction always failed the dimension check.
---
 poseidon-parameters/src/matrix.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/poseidon-parameters/src/matrix.rs b/poseidon-parameters/src/matrix.rs
index 45a0517..6584988 100644
--- a/poseidon-parameters/src/matrix.rs
+++ b/poseidon-parameters/src/matrix.rs
@@ -146,7 +146,7 @@ impl<const N_ROWS: usize, const N_COLS: usize, const N_ELEMENTS: usize>
     Matrix<N_ROWS, N_COLS, N_ELEMENTS>
 {
     /// Get row vector at a specified row index
-    pub fn row_vector(&self, i: usize) -> Matrix<1, N_COLS, N_ELEMENTS> {
+    pub fn row_vector(&self, i: usize) -> Matrix<1, N_COLS, N_COLS> {
         let mut row_elements = [Fq::default(); N_COLS];
         for j in 0..N_COLS {
             row_elements[j] = self.get_element(i, j);
@@ -322,7 +322,7 @@ impl<const N_ROWS: usize, const N_ELEMENTS: usize> Mul<Fq> for SquareMatrix<N_RO
 
 impl<const N_ROWS: usize, const N_ELEMENTS: usize> SquareMatrix<N_ROWS, N_ELEMENTS> {
     /// Get row vector at a specified row index.
-    pub fn row_vector(&self, i: usize) -> Matrix<1, N_ROWS, N_ELEMENTS> {
+    pub fn row_vector(&self, i: usize) -> Matrix<1, N_ROWS, N_ROWS> {
         self.0.row_vector(i)
     }
 
-- 
2.43.0


From 6f11030c3c6a55b322186dc77de5284045e7bb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:22 +0000
Subject: [PATCH 2/6] fix: inverting the singular 1x1 matrix panicked instead
 of returning NoMatrixInverse

---
 poseidon-parameters/src/matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/poseidon-parameters/src/matrix.rs b/poseidon-parameters/src/matrix.rs
index 6584988..9388214 100644
--- a/poseidon-parameters/src/matrix.rs
+++ b/poseidon-parameters/src/matrix.rs
@@ -214,7 +214,7 @@ impl<const N_ROWS: usize, const N_ELEMENTS: usize> SquareMatrixOperations
             let elements = [self
                 .get_element(0, 0)
                 .inverse()
-                .expect("inverse of single element must exist for 1x1 matrix")];
+                .ok_or(PoseidonParameterError::NoMatrixInverse)?];
             return Ok(Self::new(&elements));
         }
 
-- 
2.43.0


From 77fb21b058fb7bd2e90ba41fb7bacebbddaebc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:45 +0000
Subject: [PATCH 3/6] fix: circuit hashes of constants only panicked with
 MissingCS

---
 poseidon-permutation/src/r1cs.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/poseidon-permutation/src/r1cs.rs b/poseidon-permutation/src/r1cs.rs
index 71b3a59..40dbcd5 100644
--- a/poseidon-permutation/src/r1cs.rs
+++ b/poseidon-permutation/src/r1cs.rs
@@ -173,6 +173,10 @@ impl<
                             * y
                     })
                     .collect();
+                // `sum` requires at least one allocated variable.
+                if temp_vec.iter().all(|x| x.is_constant()) {
+                    return temp_vec.iter().fold(FpVar::zero(), |acc, x| acc + x);
+                }
                 let result = temp_vec.iter().sum();
                 result
             })
-- 
2.43.0


From e8cfc0f04da9a314bbb305e0deaa236447f24fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:14 +0000
Subject: [PATCH 4/6] fix: log2 kept as few as 3 significant bits of p, giving
 too few rounds

---
 poseidon-paramgen/src/utils.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/poseidon-paramgen/src/utils.rs b/poseidon-paramgen/src/utils.rs
index c010682..24a3152 100644
--- a/poseidon-paramgen/src/utils.rs
+++ b/poseidon-paramgen/src/utils.rs
@@ -8,12 +8,10 @@ where
     P: BigInteger,
 {
     let mut p_biguint: BigUint = x.into();
-    let two_to_50: BigUint = 1125899906842624u64.into(); // 2**50
-    let mut log_bit_boundaries = 0;
-    while p_biguint > two_to_50 {
-        p_biguint >>= 48u64;
-        log_bit_boundaries += 48;
-    }
+    // Keep the 40 leading bits. The bits dropped change the result by less than 2^-38, and it
+    // stays below the next integer even for numbers just below a power of two.
+    let log_bit_boundaries = p_biguint.bits().saturating_sub(40);
+    p_biguint >>= log_bit_boundaries;
     let mut p_le_bytes = p_biguint.to_bytes_le();
     // `u64::from_le_bytes` takes `[u8; 8]` but `p_le_bytes` is a Vec<u8>
     // so we must pad the vec to the proper size:
-- 
2.43.0


From c9c6c8722edadd6f153ad3ba2b49ae6398b68c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:24 +0000
Subject: [PATCH 5/6] fix: Poseidon2 round numbers trusted partial products
 exceeding the binomial coefficient

---
 poseidon-paramgen/src/rounds.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/poseidon-paramgen/src/rounds.rs b/poseidon-paramgen/src/rounds.rs
index f57e80e..ad50ee2 100644
--- a/poseidon-paramgen/src/rounds.rs
+++ b/poseidon-paramgen/src/rounds.rs
@@ -231,6 +231,9 @@ fn algebraic_attack_grobner_basis_v2_possible<T: BigInteger>(
         + choice.partial()
         + exponent;
     let lower = r * (choice.full() / 2) + choice.partial() + exponent;
+    // By symmetry the coefficient stays the same. Up to the middle the partial products below
+    // only grow, so that none of them exceeds the coefficient when we return early.
+    let lower = lower.min(upper - lower);
 
     // Start computing the binomial coefficient (upper choose lower).
     let mut acc = BigInt::from(1);
-- 
2.43.0


From babe72452a32ad60744b416c36de2298fac83286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:14 +0000
Subject: [PATCH 6/6] fix: round number generation could choose an odd number
 of full rounds

---
 poseidon-paramgen/src/rounds.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/poseidon-paramgen/src/rounds.rs b/poseidon-paramgen/src/rounds.rs
index ad50ee2..1a95922 100644
--- a/poseidon-paramgen/src/rounds.rs
+++ b/poseidon-paramgen/src/rounds.rs
@@ -24,9 +24,10 @@ pub fn v1_generate<T: BigInteger>(input: &InputParameters<T>, alpha: &Alpha) ->
         panic!("This crate does not support security levels beyond 256 bits, use Poseidon2");
     }
 
-    // Loop through choices of r_F, r_P
+    // Loop through choices of r_F, r_P. Half of the full rounds come before the partial
+    // rounds and half after them, so r_F must be even.
     for r_P in 1..400 {
-        for r_F in 4..100 {
+        for r_F in (4..100).step_by(2) {
             let mut candidate = RoundNumbersBuilder(RoundNumbers { r_F, r_P });
             if !candidate.is_secure_v1(input, alpha) {
                 continue;
@@ -53,9 +54,10 @@ pub fn v2_generate<T: BigInteger>(input: &InputParameters<T>, alpha: &Alpha) ->
     let mut cost = usize::MAX;
     let mut cost_rf = usize::MAX;
 
-    // Loop through choices of r_F, r_P
+    // Loop through choices of r_F, r_P. Half of the full rounds come before the partial
+    // rounds and half after them, so r_F must be even.
     for r_P in 1..400 {
-        for r_F in 4..100 {
+        for r_F in (4..100).step_by(2) {
             let mut candidate = RoundNumbersBuilder(RoundNumbers { r_F, r_P });
             if !candidate.is_secure_v2(input, alpha) {
                 continue;
-- 
2.43.0

