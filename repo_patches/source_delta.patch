From ded5ce27b76bc967108ba93a77317497f68ef98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:37 +0000
Subject: [PATCH 01/26] verif hook: re-export operators and proof parts under
 cfg(zksql_verif)

---
 .../pcs/multilinear_kzg/batching.rs           | 15 +++++++++++
 src/subroutines/poly_iop/structs.rs           | 14 ++++++++++
 src/zksql_poly_iop/join_reduction/mod.rs      |  7 ++++-
 src/zksql_poly_iop/mod.rs                     | 27 ++++++++++++++++++-
 4 files changed, 61 insertions(+), 2 deletions(-)

diff --git a/src/subroutines/pcs/multilinear_kzg/batching.rs b/src/subroutines/pcs/multilinear_kzg/batching.rs
index be42261..93c92b1 100644
--- a/src/subroutines/pcs/multilinear_kzg/batching.rs
+++ b/src/subroutines/pcs/multilinear_kzg/batching.rs
@@ -40,6 +40,21 @@ where
     pub(crate) g_prime_proof: PCS::Proof,
 }
 
+/// Access to the proof parts for external checking tools.
+#[cfg(zksql_verif)]
+impl<E, PCS> BatchProof<E, PCS>
+where
+    E: Pairing,
+    PCS: PolynomialCommitmentScheme<E>,
+{
+    pub fn verif_sum_check_proof_mut(&mut self) -> &mut IOPProof<E::ScalarField> {
+        &mut self.sum_check_proof
+    }
+    pub fn verif_g_prime_proof_mut(&mut self) -> &mut PCS::Proof {
+        &mut self.g_prime_proof
+    }
+}
+
 /// Steps:
 /// 1. get challenge point t from transcript
 /// 2. build eq(t,i) for i in [0..k]
diff --git a/src/subroutines/poly_iop/structs.rs b/src/subroutines/poly_iop/structs.rs
index b0dae47..d997cf9 100644
--- a/src/subroutines/poly_iop/structs.rs
+++ b/src/subroutines/poly_iop/structs.rs
@@ -27,6 +27,20 @@ pub struct IOPProverMessage<F: PrimeField> {
     pub(crate) evaluations: Vec<F>,
 }
 
+/// Access to the message for external checking tools.
+#[cfg(zksql_verif)]
+impl<F: PrimeField> IOPProverMessage<F> {
+    pub fn verif_new(evaluations: Vec<F>) -> Self {
+        Self { evaluations }
+    }
+    pub fn verif_evaluations(&self) -> &Vec<F> {
+        &self.evaluations
+    }
+    pub fn verif_evaluations_mut(&mut self) -> &mut Vec<F> {
+        &mut self.evaluations
+    }
+}
+
 /// Prover State of a PolyIOP.
 pub struct IOPProverState<F: PrimeField> {
     /// sampled randomness given by the verifier
diff --git a/src/zksql_poly_iop/join_reduction/mod.rs b/src/zksql_poly_iop/join_reduction/mod.rs
index 02c0871..ef9a871 100644
--- a/src/zksql_poly_iop/join_reduction/mod.rs
+++ b/src/zksql_poly_iop/join_reduction/mod.rs
@@ -1,3 +1,8 @@
 pub mod join_reduction;
 mod test;
-mod utils;
\ No newline at end of file
+mod utils;
+
+#[cfg(zksql_verif)]
+pub mod verif_exports {
+    pub use super::utils::*;
+}
diff --git a/src/zksql_poly_iop/mod.rs b/src/zksql_poly_iop/mod.rs
index f81f464..b83c576 100644
--- a/src/zksql_poly_iop/mod.rs
+++ b/src/zksql_poly_iop/mod.rs
@@ -26,4 +26,29 @@ mod set_intersect;
 
 mod selector_valid;
 
-mod util;
\ No newline at end of file
+mod util;
+/// Re-exports of the private operator modules for external checking tools.
+/// Compiled only with `RUSTFLAGS="--cfg zksql_verif"`.
+#[cfg(zksql_verif)]
+pub mod verif_exports {
+    pub use super::bag_disjoint::{bag_disjoint::*, utils::*};
+    pub use super::bag_eq::bag_eq::*;
+    pub use super::bag_inclusion::{bag_inclusion::*, utils::*};
+    pub use super::bag_multitool::bag_multitool::*;
+    pub use super::bag_no_zeros::*;
+    pub use super::bag_presc_perm::bag_presc_perm::*;
+    pub use super::bag_sort::bag_sort::*;
+    pub use super::bag_sum::bag_sum::*;
+    pub use super::bag_supp::{bag_supp::*, utils::*};
+    pub use super::cross_product::{cross_product::*, utils::*};
+    pub use super::final_join_one_to_many::{final_join_one_to_many::*, utils::*};
+    pub use super::group_by::group_by::*;
+    pub use super::index_transform::{index_transform::*, utils::*};
+    pub use super::join_reduction::{join_reduction::*, verif_exports::*};
+    pub use super::selector_valid::selector_valid::*;
+    pub use super::set_diff::set_diff::*;
+    pub use super::set_disjoint::set_disjoint::*;
+    pub use super::set_intersect::set_intersect::*;
+    pub use super::set_union::set_union::*;
+    pub use super::util::prelude::*;
+}
-- 
2.43.0


From 0f797281996b06b865b9e2a92a565ce4732cbc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:37 +0000
Subject: [PATCH 02/26] fix: verifier increase_nv_back ignores the last
 added_nv coordinates

It kept the first added_nv coordinates instead of dropping the last
added_nv ones, so a comm with fewer variables than added was evaluated at
a point of the wrong length.
---
 src/tracker/verifier_tracker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tracker/verifier_tracker.rs b/src/tracker/verifier_tracker.rs
index 6e4bc99..9e62e66 100644
--- a/src/tracker/verifier_tracker.rs
+++ b/src/tracker/verifier_tracker.rs
@@ -283,7 +283,7 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> VerifierTracker<E, PCS> {
             let poly_eval_box = virtual_comms.get(&poly_id).unwrap();
 
             // evaluate the polynomial at the point, ignoring the last added_nv coordinates
-            let truncated_pt = &pt[..added_nv];
+            let truncated_pt = &pt[..pt.len() - added_nv];
             let poly_eval: <E as Pairing>::ScalarField = poly_eval_box(truncated_pt)?;
             Ok(poly_eval)
         };
-- 
2.43.0


From 03fb4da41ddd1edb0e6b7bd44e58e4bc050bcbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:37 +0000
Subject: [PATCH 03/26] fix: aggregate table rows as a random linear
 combination

The row fingerprint was the product of the scaled columns, so two rows
with the same product, such as (2, 3) and (3, 2), were identified and a
row absent from the input table was accepted.
---
 src/zksql_poly_iop/index_transform/utils.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/zksql_poly_iop/index_transform/utils.rs b/src/zksql_poly_iop/index_transform/utils.rs
index b249e11..c52226e 100644
--- a/src/zksql_poly_iop/index_transform/utils.rs
+++ b/src/zksql_poly_iop/index_transform/utils.rs
@@ -15,9 +15,9 @@ where
     E: Pairing,
     PCS: PolynomialCommitmentScheme<E>,
 {
-    let mut res_poly = table.selector.clone();
-    for i in 0..table.col_vals.len() {
-        res_poly = res_poly.mul_poly(&table.col_vals[i].mul_scalar(rand_coeffs[i]));
+    let mut res_poly = table.col_vals[0].mul_scalar(rand_coeffs[0]);
+    for i in 1..table.col_vals.len() {
+        res_poly = res_poly.add_poly(&table.col_vals[i].mul_scalar(rand_coeffs[i]));
     }
     let res_bag = Bag::new(res_poly, table.selector.clone());
 
@@ -35,9 +35,9 @@ where
     E: Pairing,
     PCS: PolynomialCommitmentScheme<E>,
 {
-    let mut res_poly = table_comm.selector.clone();
-    for i in 0..table_comm.col_vals.len() {
-        res_poly = res_poly.mul_comms(&table_comm.col_vals[i].mul_scalar(rand_coeffs[i]));
+    let mut res_poly = table_comm.col_vals[0].mul_scalar(rand_coeffs[0]);
+    for i in 1..table_comm.col_vals.len() {
+        res_poly = res_poly.add_comms(&table_comm.col_vals[i].mul_scalar(rand_coeffs[i]));
     }
     let res_bag = BagComm::new(res_poly, table_comm.selector.clone(), table_comm.num_vars);
 
-- 
2.43.0


From beb77474cd827237d6f13ed6be4fa2a922b3f86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:13 +0000
Subject: [PATCH 04/26] fix: bag_lmr_split merges the sorted active elements

It sorted the active elements but then merged the unsorted columns,
inactive rows included, so unsorted or padded bags were split wrongly.
---
 src/zksql_poly_iop/util/intermed_bag_calc.rs | 30 +++++++-------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/src/zksql_poly_iop/util/intermed_bag_calc.rs b/src/zksql_poly_iop/util/intermed_bag_calc.rs
index a479b10..9988754 100644
--- a/src/zksql_poly_iop/util/intermed_bag_calc.rs
+++ b/src/zksql_poly_iop/util/intermed_bag_calc.rs
@@ -62,34 +62,26 @@ where
     let mut a_counter = 0;
     let mut b_counter = 0;
     while a_counter < sorted_a_evals.len() && b_counter < sorted_b_evals.len() {
-        if a_evals[a_counter] < b_evals[b_counter] {
-            l_evals.push(a_evals[a_counter]);
+        if sorted_a_evals[a_counter] < sorted_b_evals[b_counter] {
+            l_evals.push(sorted_a_evals[a_counter]);
             a_counter += 1;
-        } else if a_evals[a_counter] > b_evals[b_counter] {
-            r_evals.push(b_evals[b_counter]);
+        } else if sorted_a_evals[a_counter] > sorted_b_evals[b_counter] {
+            r_evals.push(sorted_b_evals[b_counter]);
             b_counter += 1;
         } else {
-            let match_eval = a_evals[a_counter];
-            while a_counter < sorted_a_evals.len() && a_evals[a_counter] == match_eval {
-                ma_evals.push(a_evals[a_counter]);
+            let match_eval = sorted_a_evals[a_counter];
+            while a_counter < sorted_a_evals.len() && sorted_a_evals[a_counter] == match_eval {
+                ma_evals.push(sorted_a_evals[a_counter]);
                 a_counter += 1;
             }
-            while b_counter < sorted_b_evals.len() && b_evals[b_counter] == match_eval {
-                mb_evals.push(b_evals[b_counter]);
+            while b_counter < sorted_b_evals.len() && sorted_b_evals[b_counter] == match_eval {
+                mb_evals.push(sorted_b_evals[b_counter]);
                 b_counter += 1;
             }
         }
     }
-    for i in a_counter..a_len {
-        if !a_sel_evals[i].is_zero() {
-            l_evals.push(a_evals[i]);
-        }
-    }
-    for i in b_counter..b_len {
-        if !b_sel_evals[i].is_zero() {
-            r_evals.push(b_evals[i]);
-        }
-    }
+    l_evals.extend_from_slice(&sorted_a_evals[a_counter..]);
+    r_evals.extend_from_slice(&sorted_b_evals[b_counter..]);
 
     // create selectors for the intermediate bags and extend things to the correct length
     let mut l_sel_evals = vec![E::ScalarField::one(); l_evals.len()];
-- 
2.43.0


From 231d5b35df931f19427c7064fc078abe9604f5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:26 +0000
Subject: [PATCH 05/26] fix: batch opening of a single polynomial

With one polynomial there is no challenge point t and building eq(t, .)
failed, so a proof over one commitment could not be made or verified.
---
 src/subroutines/pcs/multilinear_kzg/batching.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/subroutines/pcs/multilinear_kzg/batching.rs b/src/subroutines/pcs/multilinear_kzg/batching.rs
index 93c92b1..197fa14 100644
--- a/src/subroutines/pcs/multilinear_kzg/batching.rs
+++ b/src/subroutines/pcs/multilinear_kzg/batching.rs
@@ -21,6 +21,7 @@ use crate::{
 };
 use crate::arithmetic::{build_eq_x_r_vec, DenseMultilinearExtension, VPAuxInfo, VirtualPolynomial};
 use ark_ec::{pairing::Pairing, scalar_mul::variable_base::VariableBaseMSM, CurveGroup};
+use ark_ff::PrimeField;
 
 use ark_std::{end_timer, log2, start_timer, One, Zero};
 use std::{collections::BTreeMap, iter, marker::PhantomData, ops::Deref, sync::Arc};
@@ -55,6 +56,14 @@ where
     }
 }
 
+/// eq(t, i) for all i; a batch of one polynomial has no t, and eq(t, 0) = 1
+fn build_eq_t_list<F: PrimeField>(t: &[F]) -> Result<Vec<F>, PCSError> {
+    if t.is_empty() {
+        return Ok(vec![F::one()]);
+    }
+    Ok(build_eq_x_r_vec(t)?)
+}
+
 /// Steps:
 /// 1. get challenge point t from transcript
 /// 2. build eq(t,i) for i in [0..k]
@@ -87,7 +96,7 @@ where
     let t = transcript.get_and_append_challenge_vectors("t".as_ref(), ell)?;
     
     // eq(t, i) for i in [0..k]
-    let eq_t_i_list = build_eq_x_r_vec(t.as_ref())?;
+    let eq_t_i_list = build_eq_t_list(t.as_ref())?;
 
     // \tilde g_i(b) = eq(t, i) * f_i(b)
     let timer = start_timer!(|| format!("compute tilde g for {} points", points.len()));
@@ -222,7 +231,7 @@ where
 
     // build g' commitment
     let step = start_timer!(|| "build homomorphic commitment");
-    let eq_t_list = build_eq_x_r_vec(t.as_ref())?;
+    let eq_t_list = build_eq_t_list(t.as_ref())?;
 
     let mut scalars = vec![];
     let mut bases = vec![];
-- 
2.43.0


From 3e58b6863020b25118ced23588e46811ddf040fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:27 +0000
Subject: [PATCH 06/26] fix: batch verification binds the opening point to the
 transcript

The opening point came from the proof and was never compared with the
point the sumcheck verifier derived, so a prover could choose it.
---
 src/subroutines/pcs/multilinear_kzg/batching.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/subroutines/pcs/multilinear_kzg/batching.rs b/src/subroutines/pcs/multilinear_kzg/batching.rs
index 197fa14..5febf2d 100644
--- a/src/subroutines/pcs/multilinear_kzg/batching.rs
+++ b/src/subroutines/pcs/multilinear_kzg/batching.rs
@@ -268,6 +268,12 @@ where
             ));
         },
     };
+    // g' is opened at the point derived from the transcript, not one of the prover's choice
+    if subclaim.point != a2 {
+        return Err(PCSError::InvalidProof(
+            "Sumcheck point in batch verification does not match the transcript".to_string(),
+        ));
+    }
     let tilde_g_eval = subclaim.expected_evaluation;
 
     // verify commitment
-- 
2.43.0


From 0942c5a56cdd038ed3df3ab0c4cea487609652a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:34 +0000
Subject: [PATCH 07/26] fix: bind the batched evaluations to the transcript
 before combining them

t was sampled before the claimed evaluations were absorbed, so a prover
could move two of them against each other along the known eq(t, .) and
have false evaluations accepted.
---
 src/subroutines/pcs/multilinear_kzg/batching.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/subroutines/pcs/multilinear_kzg/batching.rs b/src/subroutines/pcs/multilinear_kzg/batching.rs
index 5febf2d..7d7a811 100644
--- a/src/subroutines/pcs/multilinear_kzg/batching.rs
+++ b/src/subroutines/pcs/multilinear_kzg/batching.rs
@@ -92,6 +92,11 @@ where
     let k = polynomials.len();
     let ell = log2(k) as usize;
 
+    // the claimed evaluations are fixed before they are combined with t
+    for eval in evals.iter() {
+        transcript.append_field_element(b"eval", eval)?;
+    }
+
     // challenge point t
     let t = transcript.get_and_append_challenge_vectors("t".as_ref(), ell)?;
     
@@ -223,6 +228,11 @@ where
     let ell = log2(k) as usize;
     let num_var = proof.sum_check_proof.point.len();
 
+    // the claimed evaluations are fixed before they are combined with t
+    for eval in proof.f_i_eval_at_point_i.iter() {
+        transcript.append_field_element(b"eval", eval)?;
+    }
+
     // challenge point t
     let t = transcript.get_and_append_challenge_vectors("t".as_ref(), ell)?;
 
-- 
2.43.0


From 503c45d6932b59ea457789b9b7afd11d5a95bb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:34 +0000
Subject: [PATCH 08/26] fix: reject a compiled proof whose batch opening does
 not verify

verify_claims dropped the result of batch_verify, so any opening proof
that parsed was accepted. The prover now equalizes with front variables,
which leave the commitments unchanged, so honest openings do verify.
---
 src/tracker/prover_tracker.rs   | 2 +-
 src/tracker/verifier_tracker.rs | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tracker/prover_tracker.rs b/src/tracker/prover_tracker.rs
index df3c1af..89cf7b0 100644
--- a/src/tracker/prover_tracker.rs
+++ b/src/tracker/prover_tracker.rs
@@ -496,7 +496,7 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> ProverTracker<E, PCS> {
         for (_, poly) in self.materialized_polys.iter_mut() {
             let old_nv = poly.num_vars();
             if old_nv != nv {
-                *poly = dmle_increase_nv_back(poly, nv); // increase_nv_back and increase_nv_front are equivalent, they cause the same sums, just be consistent
+                *poly = dmle_increase_nv_front(poly, nv); // both cause the same sums, but only adding variables at the front keeps the commitment the same
             }
         }
 
diff --git a/src/tracker/verifier_tracker.rs b/src/tracker/verifier_tracker.rs
index 9e62e66..232ce2d 100644
--- a/src/tracker/verifier_tracker.rs
+++ b/src/tracker/verifier_tracker.rs
@@ -396,7 +396,9 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> VerifierTracker<E, PCS> {
         let points = vec![sumcheck_point.clone(); comm_ids.len()];
         let batch_proof = self.proof.pcs_proof[0].clone();
         let pcs_verify_res = PCS::batch_verify(&self.pcs_params, &comms, points.as_slice(), &batch_proof, &mut self.transcript);
-        pcs_verify_res?;
+        if !pcs_verify_res? {
+            return Err(PolyIOPErrors::InvalidProof("batch opening proof does not verify".to_string()));
+        }
 
         Ok(())
     }
-- 
2.43.0


From 137d5893d4a6faff0d182f44439339ef9c9a7427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:34 +0000
Subject: [PATCH 09/26] fix: one-to-many join ignores padding rows in its
 duplicate-key check

Inactive rows of the primary-key table were counted, so a table with two
padding rows was refused as having duplicate keys.
---
 .../final_join_one_to_many/final_join_one_to_many.rs         | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/zksql_poly_iop/final_join_one_to_many/final_join_one_to_many.rs b/src/zksql_poly_iop/final_join_one_to_many/final_join_one_to_many.rs
index 1b6d438..356eb5e 100644
--- a/src/zksql_poly_iop/final_join_one_to_many/final_join_one_to_many.rs
+++ b/src/zksql_poly_iop/final_join_one_to_many/final_join_one_to_many.rs
@@ -1,6 +1,7 @@
 
 use ark_ec::pairing::Pairing;
 use ark_poly::DenseMultilinearExtension;
+use ark_std::Zero;
 use std::collections::HashMap;
 use std::marker::PhantomData;
 
@@ -64,8 +65,12 @@ where PCS: PolynomialCommitmentScheme<E> {
         #[cfg(debug_assertions)] 
         {
             let table_a_join_col_evals = table_a.col_vals[a_join_col_index].evaluations();
+            let table_a_sel_evals = table_a.selector.evaluations();
             let mut counts = HashMap::<E::ScalarField, usize>::new();
             for i in 0..table_a_join_col_evals.len() {
+                if table_a_sel_evals[i].is_zero() { // only include activated rows
+                    continue;
+                }
                 let val = table_a_join_col_evals[i];
                 let count = counts.entry(val).or_insert(0);
                 *count += 1;
-- 
2.43.0


From 61319179b6d76156307e4abc2b1153cf1a92dbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:35 +0000
Subject: [PATCH 10/26] fix: group by returns the sum column

The sum aggregation was proven but its column was left out of the result
table, unlike the count column.
---
 src/zksql_poly_iop/group_by/group_by.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zksql_poly_iop/group_by/group_by.rs b/src/zksql_poly_iop/group_by/group_by.rs
index ef7f9de..8365813 100644
--- a/src/zksql_poly_iop/group_by/group_by.rs
+++ b/src/zksql_poly_iop/group_by/group_by.rs
@@ -154,6 +154,7 @@ where PCS: PolynomialCommitmentScheme<E> {
                         &vec![pre_agg_poly.clone()],
                         &vec![agg_poly.clone()],
                     )?;
+                    res_table.col_vals.push(agg_poly.clone());
                 },
                 AggregationType::Avg => {
                     // prove the avg aggregation is correct
@@ -242,6 +243,7 @@ where PCS: PolynomialCommitmentScheme<E> {
                         &vec![pre_agg_poly],
                         &vec![agg_poly.clone()],
                     )?;
+                    res_table.col_vals.push(agg_poly.clone());
                 },
                 AggregationType::Avg => {
                     // prove the avg aggregation is correct
-- 
2.43.0


From ac9f972ab3de786aed7ebb4614c2feccda35fbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:48 +0000
Subject: [PATCH 11/26] fix: reading a virtual polynomial's evaluations no
 longer changes it

evaluations() replaced the tracked product by the multilinear extension
of its values, so evaluate() gave another result away from the hypercube
afterwards and debug builds compiled different proofs than release ones.
---
 src/tracker/prover_tracker.rs | 28 ++++++++++++----------------
 src/tracker/prover_wrapper.rs |  2 +-
 2 files changed, 13 insertions(+), 17 deletions(-)

diff --git a/src/tracker/prover_tracker.rs b/src/tracker/prover_tracker.rs
index 89cf7b0..d1cab4d 100644
--- a/src/tracker/prover_tracker.rs
+++ b/src/tracker/prover_tracker.rs
@@ -343,28 +343,29 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> ProverTracker<E, PCS> {
     }
 
     pub fn increase_nv_front(&mut self, poly_id: TrackerID, added_nv: usize) -> TrackerID {
-        self.materialize_poly(poly_id);
-        let base_mle = self.get_mat_poly(poly_id).unwrap();
+        let base_mle = self.materialize_poly(poly_id);
         let base_nv = base_mle.num_vars();
-        let res_mle = dmle_increase_nv_front(base_mle, base_nv + added_nv);
+        let res_mle = dmle_increase_nv_front(&base_mle, base_nv + added_nv);
         let res_id = self.track_mat_arc_poly(res_mle);
         res_id
     }
 
     pub fn increase_nv_back(&mut self, poly_id: TrackerID, added_nv: usize) -> TrackerID {
-        self.materialize_poly(poly_id);
-        let base_mle = self.get_mat_poly(poly_id).unwrap();
+        let base_mle = self.materialize_poly(poly_id);
         let base_nv = base_mle.num_vars();
-        let res_mle = dmle_increase_nv_back(base_mle, base_nv + added_nv);
+        let res_mle = dmle_increase_nv_back(&base_mle, base_nv + added_nv);
         let res_id = self.track_mat_arc_poly(res_mle);
         res_id
     }
 
-    fn materialize_poly(&mut self, id: TrackerID) {
+    // Returns the multilinear extension of the polynomial's evaluations on the boolean hypercube.
+    // The tracked polynomial itself is left alone: a virtual polynomial has a higher degree,
+    // so away from the hypercube the two are different polynomials.
+    fn materialize_poly(&self, id: TrackerID) -> Arc<DenseMultilinearExtension<E::ScalarField>> {
         // look up the virtual polynomial
         let mat_poly = self.materialized_polys.get(&id);
         if mat_poly.is_some() {
-            return // already materialized
+            return mat_poly.unwrap().clone() // already materialized
         }
         let virt_poly = self.virtual_polys.get(&id);
         if virt_poly.is_none() {
@@ -398,10 +399,7 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> ProverTracker<E, PCS> {
                 .collect()
         });
 
-        // cache the result by updating the materialized poly map
-        let mle = Arc::new(DenseMultilinearExtension::from_evaluations_vec(nv, evals));
-        self.materialized_polys.insert(id.clone(), mle);
-        self.virtual_polys.remove(&id);
+        Arc::new(DenseMultilinearExtension::from_evaluations_vec(nv, evals))
     }
 
     pub fn evaluate(&self, id: TrackerID, pt: &[E::ScalarField]) -> Option<E::ScalarField>{
@@ -437,10 +435,8 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> ProverTracker<E, PCS> {
         Some(eval)
     }
 
-    pub fn evaluations(&mut self, id: TrackerID) -> &Vec<E::ScalarField> {
-        self.materialize_poly(id);
-        let mat_poly = self.materialized_polys.get(&id).unwrap();
-        return &mat_poly.evaluations;
+    pub fn evaluations(&self, id: TrackerID) -> Vec<E::ScalarField> {
+        self.materialize_poly(id).evaluations.clone()
     }
 
     pub fn get_and_append_challenge(&mut self, label: &'static [u8]) -> Result<E::ScalarField, TranscriptError> {
diff --git a/src/tracker/prover_wrapper.rs b/src/tracker/prover_wrapper.rs
index 0c2e4a6..335c6a8 100644
--- a/src/tracker/prover_wrapper.rs
+++ b/src/tracker/prover_wrapper.rs
@@ -220,7 +220,7 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> TrackedPoly<E, PCS> {
     pub fn evaluations(&self) -> Vec<E::ScalarField> {
         // note: this has to actually clone the evaluations, which can be expensive
         let tracker_ref: &RefCell<ProverTracker<E, PCS>> = self.tracker.borrow();
-        tracker_ref.borrow_mut().evaluations(self.id.clone()).clone() 
+        tracker_ref.borrow().evaluations(self.id.clone())
     }
 
     pub fn to_arithmatic_virtual_poly(&self) -> VirtualPolynomial<E::ScalarField> {
-- 
2.43.0


From b60b57d486fe45a66e00d65b0c205d0134d0df76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:30 +0000
Subject: [PATCH 12/26] verif hook: substitute committed polynomials under
 cfg(zksql_verif)

---
 src/tracker/mod.rs            |  2 ++
 src/tracker/prover_tracker.rs |  4 ++++
 src/tracker/verif_hook.rs     | 28 ++++++++++++++++++++++++++++
 3 files changed, 34 insertions(+)
 create mode 100644 src/tracker/verif_hook.rs

diff --git a/src/tracker/mod.rs b/src/tracker/mod.rs
index 04e008f..02dc612 100644
--- a/src/tracker/mod.rs
+++ b/src/tracker/mod.rs
@@ -10,3 +10,5 @@ mod verifier_tracker;
 mod verifier_wrapper;
 
 pub mod prelude;
+#[cfg(zksql_verif)]
+pub mod verif_hook;
diff --git a/src/tracker/prover_tracker.rs b/src/tracker/prover_tracker.rs
index d1cab4d..9ad2927 100644
--- a/src/tracker/prover_tracker.rs
+++ b/src/tracker/prover_tracker.rs
@@ -115,6 +115,10 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> ProverTracker<E, PCS> {
         &mut self,
         polynomial: DenseMultilinearExtension<E::ScalarField>,
     ) -> Result<TrackerID, PCSError> {
+        // lets a checking tool act as a prover that commits to something else
+        #[cfg(zksql_verif)]
+        let polynomial = crate::tracker::verif_hook::substitute(polynomial);
+
         // commit to the p[olynomial
         let commitment = PCS::commit(self.pcs_param.clone(), &polynomial)?;
 
diff --git a/src/tracker/verif_hook.rs b/src/tracker/verif_hook.rs
new file mode 100644
index 0000000..422d95c
--- /dev/null
+++ b/src/tracker/verif_hook.rs
@@ -0,0 +1,28 @@
+//! Fault injection for external checking tools: a thread can install a function that
+//! replaces the polynomials the prover is about to commit to (a dishonest prover).
+//! Compiled only with `RUSTFLAGS="--cfg zksql_verif"`.
+use ark_ff::PrimeField;
+use ark_poly::DenseMultilinearExtension;
+use std::any::Any;
+use std::cell::RefCell;
+
+pub type Substitution<F> = Box<dyn FnMut(DenseMultilinearExtension<F>) -> DenseMultilinearExtension<F>>;
+
+thread_local! {
+    static SUBSTITUTION: RefCell<Option<Box<dyn Any>>> = RefCell::new(None);
+}
+
+/// Install the function for this thread; `None` removes it.
+pub fn set_substitution<F: PrimeField>(f: Option<Substitution<F>>) {
+    SUBSTITUTION.with(|s| *s.borrow_mut() = f.map(|f| Box::new(f) as Box<dyn Any>));
+}
+
+pub(crate) fn substitute<F: PrimeField>(poly: DenseMultilinearExtension<F>) -> DenseMultilinearExtension<F> {
+    SUBSTITUTION.with(|s| {
+        let mut slot = s.borrow_mut();
+        match slot.as_mut().and_then(|b| b.downcast_mut::<Substitution<F>>()) {
+            Some(f) => f(poly),
+            None => poly,
+        }
+    })
+}
-- 
2.43.0


From 776892e4c337de7f4fca5e39dabaa1efdd20813f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:09 +0000
Subject: [PATCH 13/26] fix: opening proof must have one quotient per variable

---
 src/subroutines/pcs/multilinear_kzg/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/subroutines/pcs/multilinear_kzg/mod.rs b/src/subroutines/pcs/multilinear_kzg/mod.rs
index 1e20549..82d696d 100644
--- a/src/subroutines/pcs/multilinear_kzg/mod.rs
+++ b/src/subroutines/pcs/multilinear_kzg/mod.rs
@@ -283,6 +283,12 @@ fn verify_internal<E: Pairing>(
         )));
     }
 
+    // one quotient per variable; others would be ignored or taken as zero
+    if proof.proofs.len() != num_var {
+        end_timer!(verify_timer);
+        return Ok(false);
+    }
+
     let prepare_inputs_timer = start_timer!(|| "prepare pairing inputs");
 
     let scalar_size = E::ScalarField::MODULUS_BIT_SIZE as usize;
-- 
2.43.0


From 34ecf1f35901e2b49cc64fcee13beb34ddd29b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:09 +0000
Subject: [PATCH 14/26] fix: bind the opening points to the transcript of a
 batch opening

---
 src/subroutines/pcs/multilinear_kzg/batching.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/subroutines/pcs/multilinear_kzg/batching.rs b/src/subroutines/pcs/multilinear_kzg/batching.rs
index 7d7a811..8c75895 100644
--- a/src/subroutines/pcs/multilinear_kzg/batching.rs
+++ b/src/subroutines/pcs/multilinear_kzg/batching.rs
@@ -92,7 +92,10 @@ where
     let k = polynomials.len();
     let ell = log2(k) as usize;
 
-    // the claimed evaluations are fixed before they are combined with t
+    // the points and claimed evaluations are fixed before they are combined with t
+    for point in points.iter() {
+        transcript.append_serializable_element(b"point", point)?;
+    }
     for eval in evals.iter() {
         transcript.append_field_element(b"eval", eval)?;
     }
@@ -228,7 +231,10 @@ where
     let ell = log2(k) as usize;
     let num_var = proof.sum_check_proof.point.len();
 
-    // the claimed evaluations are fixed before they are combined with t
+    // the points and claimed evaluations are fixed before they are combined with t
+    for point in points.iter() {
+        transcript.append_serializable_element(b"point", point)?;
+    }
     for eval in proof.f_i_eval_at_point_i.iter() {
         transcript.append_field_element(b"eval", eval)?;
     }
-- 
2.43.0


From 5d97a3f69372ac44b0ead6388a0ab4204157b183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:24 +0000
Subject: [PATCH 15/26] fix: bind the claimed sums to the transcript before
 combining them

---
 src/tracker/prover_tracker.rs   | 4 ++++
 src/tracker/verifier_tracker.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/tracker/prover_tracker.rs b/src/tracker/prover_tracker.rs
index 9ad2927..9c26f2e 100644
--- a/src/tracker/prover_tracker.rs
+++ b/src/tracker/prover_tracker.rs
@@ -553,6 +553,10 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> ProverTracker<E, PCS> {
         // 1.5) aggregate the sumcheck claims
         let mut sumcheck_poly = self.track_mat_poly(DenseMultilinearExtension::<E::ScalarField>::from_evaluations_vec(nv, vec![E::ScalarField::zero(); 2_usize.pow(nv as u32)]));
         let mut sc_sum = E::ScalarField::zero();
+        // the claimed sums are fixed before they are combined
+        for claim in self.sum_check_claims.iter() {
+            self.transcript.append_field_element(b"claimed sum", &claim.claimed_sum)?;
+        }
         for claim in self.sum_check_claims.clone().iter() {
             let challenge = self.get_and_append_challenge(b"sumcheck challenge").unwrap();
             let claim_times_challenge_id = self.mul_scalar(claim.label.clone(), challenge);
diff --git a/src/tracker/verifier_tracker.rs b/src/tracker/verifier_tracker.rs
index 232ce2d..36770f2 100644
--- a/src/tracker/verifier_tracker.rs
+++ b/src/tracker/verifier_tracker.rs
@@ -374,6 +374,10 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> VerifierTracker<E, PCS> {
         let zero_closure = |_: &[E::ScalarField]| -> Result<<E as Pairing>::ScalarField, PolyIOPErrors> {Ok(E::ScalarField::zero())};
         let mut sumcheck_comm = self.track_virtual_comm(Box::new(zero_closure));
         let mut sc_sum = E::ScalarField::zero();
+        // the claimed sums are fixed before they are combined
+        for claim in self.sum_check_claims.iter() {
+            self.transcript.append_field_element(b"claimed sum", &claim.claimed_sum)?;
+        }
         for claim in self.sum_check_claims.clone().iter() {
             let challenge = self.get_and_append_challenge(b"sumcheck challenge").unwrap();
             let claim_times_challenge_id = self.mul_scalar(claim.label.clone(), challenge);
-- 
2.43.0


From 31fc0faa53c983d9dfccf397071041ffb34233c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:21 +0000
Subject: [PATCH 16/26] verif hook: name the compiled proof under
 cfg(zksql_verif)

---
 src/tracker/verif_hook.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tracker/verif_hook.rs b/src/tracker/verif_hook.rs
index 422d95c..75dfe0b 100644
--- a/src/tracker/verif_hook.rs
+++ b/src/tracker/verif_hook.rs
@@ -6,6 +6,8 @@ use ark_poly::DenseMultilinearExtension;
 use std::any::Any;
 use std::cell::RefCell;
 
+pub use crate::tracker::tracker_structs::CompiledZKSQLProof;
+
 pub type Substitution<F> = Box<dyn FnMut(DenseMultilinearExtension<F>) -> DenseMultilinearExtension<F>>;
 
 thread_local! {
-- 
2.43.0


From 7bc915c3affa41a57e7130fdf9e64be941423c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:47 +0000
Subject: [PATCH 17/26] verif hook: re-export bag_lmr_multiplicity_split under
 cfg(zksql_verif)

---
 src/zksql_poly_iop/util/prelude.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zksql_poly_iop/util/prelude.rs b/src/zksql_poly_iop/util/prelude.rs
index f0d51f3..71b0d63 100644
--- a/src/zksql_poly_iop/util/prelude.rs
+++ b/src/zksql_poly_iop/util/prelude.rs
@@ -2,4 +2,6 @@
 pub use crate::zksql_poly_iop::util::{
     intermed_bag_calc::{bag_lmr_split, set_lmr_split},
     multiplicity_count::{bag_multiplicity_count, mle_multiplicity_count, vec_multiplicity_count},
-};
\ No newline at end of file
+};
+#[cfg(zksql_verif)]
+pub use crate::zksql_poly_iop::util::intermed_bag_calc::bag_lmr_multiplicity_split;
-- 
2.43.0


From b1621e275866f367fa288801e41d10c51a52ad13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:14 +0000
Subject: [PATCH 18/26] fix: bag_lmr_multiplicity_split counts runs of the
 sorted active values

---
 src/zksql_poly_iop/util/intermed_bag_calc.rs | 58 +++++++++-----------
 1 file changed, 27 insertions(+), 31 deletions(-)

diff --git a/src/zksql_poly_iop/util/intermed_bag_calc.rs b/src/zksql_poly_iop/util/intermed_bag_calc.rs
index 9988754..2ae2f2b 100644
--- a/src/zksql_poly_iop/util/intermed_bag_calc.rs
+++ b/src/zksql_poly_iop/util/intermed_bag_calc.rs
@@ -190,33 +190,33 @@ where
     let mut a_index = 0;
     let mut b_index = 0;
     while a_index < sorted_a_evals.len() && b_index < sorted_b_evals.len() {
-        if a_evals[a_index] < b_evals[b_index] {
+        if sorted_a_evals[a_index] < sorted_b_evals[b_index] {
             let mut mul_counter: u64 = 0;
-            let val = a_evals[a_index];
-            while a_evals[a_index] == val {
+            let val = sorted_a_evals[a_index];
+            while a_index < sorted_a_evals.len() && sorted_a_evals[a_index] == val {
                 mul_counter += 1;
                 a_index += 1;
             }
-            l_evals.push(a_evals[a_index]);
+            l_evals.push(val);
             l_mul_evals.push(E::ScalarField::from(mul_counter));
-        } else if a_evals[a_index] > b_evals[b_index] {
+        } else if sorted_a_evals[a_index] > sorted_b_evals[b_index] {
             let mut mul_counter: u64 = 0;
-            let val = b_evals[b_index];
-            while b_evals[b_index] == val {
+            let val = sorted_b_evals[b_index];
+            while b_index < sorted_b_evals.len() && sorted_b_evals[b_index] == val {
                 mul_counter += 1;
                 b_index += 1;
             }
-            r_evals.push(b_evals[b_index]);
+            r_evals.push(val);
             r_mul_evals.push(E::ScalarField::from(mul_counter));
         } else {
-            let match_eval = a_evals[a_index];
+            let match_eval = sorted_a_evals[a_index];
             let mut a_mul_counter: u64 = 0;
             let mut b_mul_counter: u64 = 0;
-            while a_index < sorted_a_evals.len() && a_evals[a_index] == match_eval {
+            while a_index < sorted_a_evals.len() && sorted_a_evals[a_index] == match_eval {
                 a_mul_counter += 1;
                 a_index += 1;
             }
-            while b_index < sorted_b_evals.len() && b_evals[b_index] == match_eval {
+            while b_index < sorted_b_evals.len() && sorted_b_evals[b_index] == match_eval {
                 b_mul_counter += 1;
                 b_index += 1;
             }
@@ -225,29 +225,25 @@ where
             m_bmul_evals.push(E::ScalarField::from(b_mul_counter));
         }
     }
-    for i in a_index..a_len {
-        if !a_sel_evals[i].is_zero() {
-            let mut mul_counter: u64 = 0;
-            let val = a_evals[a_index];
-            while a_evals[a_index] == val {
-                mul_counter += 1;
-                a_index += 1;
-            }
-            l_evals.push(a_evals[a_index]);
-            l_mul_evals.push(E::ScalarField::from(mul_counter));
+    while a_index < sorted_a_evals.len() {
+        let mut mul_counter: u64 = 0;
+        let val = sorted_a_evals[a_index];
+        while a_index < sorted_a_evals.len() && sorted_a_evals[a_index] == val {
+            mul_counter += 1;
+            a_index += 1;
         }
+        l_evals.push(val);
+        l_mul_evals.push(E::ScalarField::from(mul_counter));
     }
-    for i in b_index..b_len {
-        if !b_sel_evals[i].is_zero() {
-            let mut mul_counter: u64 = 0;
-            let val = b_evals[b_index];
-            while b_evals[b_index] == val {
-                mul_counter += 1;
-                b_index += 1;
-            }
-            r_evals.push(b_evals[b_index]);
-            r_mul_evals.push(E::ScalarField::from(mul_counter));
+    while b_index < sorted_b_evals.len() {
+        let mut mul_counter: u64 = 0;
+        let val = sorted_b_evals[b_index];
+        while b_index < sorted_b_evals.len() && sorted_b_evals[b_index] == val {
+            mul_counter += 1;
+            b_index += 1;
         }
+        r_evals.push(val);
+        r_mul_evals.push(E::ScalarField::from(mul_counter));
     }
 
     // create selectors for the intermediate bags and extend things to the correct length
-- 
2.43.0


From f3a2a9f7a9629f2dfd09fe40941124b891b08dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:22 +0000
Subject: [PATCH 19/26] fix: index transform accepted tables with different
 numbers of columns

---
 src/zksql_poly_iop/index_transform/index_transform.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/zksql_poly_iop/index_transform/index_transform.rs b/src/zksql_poly_iop/index_transform/index_transform.rs
index 2d6c75d..470eb27 100644
--- a/src/zksql_poly_iop/index_transform/index_transform.rs
+++ b/src/zksql_poly_iop/index_transform/index_transform.rs
@@ -23,6 +23,11 @@ where PCS: PolynomialCommitmentScheme<E> {
         table_in: &Table<E, PCS>,
         table_out: &Table<E, PCS>,
     ) -> Result<(), PolyIOPErrors> {
+        if table_in.col_vals.len() != table_out.col_vals.len() {
+            return Err(PolyIOPErrors::InvalidParameters(
+                "IndexTransformIOP Error: table_in and table_out have different number of columns".to_string(),
+            ));
+        }
         let rand_coeffs = prover_sample_rand_powers(prover_tracker, table_in.col_vals.len())?;
         let table_in_agg = table_row_prover_agg(table_in, &rand_coeffs)?;
         let table_out_agg = table_row_prover_agg(table_out, &rand_coeffs)?;
@@ -41,6 +46,11 @@ where PCS: PolynomialCommitmentScheme<E> {
         table_out: &TableComm<E, PCS>,
     )
     -> Result<(), PolyIOPErrors> {
+        if table_in.col_vals.len() != table_out.col_vals.len() {
+            return Err(PolyIOPErrors::InvalidParameters(
+                "IndexTransformIOP Error: table_in and table_out have different number of columns".to_string(),
+            ));
+        }
         let rand_coeffs = verifier_sample_rand_powers(verifier_tracker, table_in.col_vals.len())?;
         let table_in_agg = table_row_verifier_agg(table_in, &rand_coeffs)?;
         let table_out_agg = table_row_verifier_agg(table_out, &rand_coeffs)?;
-- 
2.43.0


From 9f977de5560ba144fa65ac3e6322f14db925012f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:16 +0000
Subject: [PATCH 20/26] fix: one-to-many join accepted a wrong number of
 transformed columns

---
 .../final_join_one_to_many.rs                      | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/zksql_poly_iop/final_join_one_to_many/final_join_one_to_many.rs b/src/zksql_poly_iop/final_join_one_to_many/final_join_one_to_many.rs
index 356eb5e..56d6e89 100644
--- a/src/zksql_poly_iop/final_join_one_to_many/final_join_one_to_many.rs
+++ b/src/zksql_poly_iop/final_join_one_to_many/final_join_one_to_many.rs
@@ -61,6 +61,13 @@ where PCS: PolynomialCommitmentScheme<E> {
         b_join_col_index: usize,
         transformed_a_cols: &Vec::<TrackedPoly<E, PCS>>,
     ) -> Result<Table<E, PCS>, PolyIOPErrors> {
+        // check that there is one transformed column per column of table_a
+        if transformed_a_cols.len() != table_a.col_vals.len() {
+            return Err(PolyIOPErrors::InvalidParameters(
+                "FinalJoinOneToManyIOP Error: table_a and transformed_a_cols have different number of columns".to_string(),
+            ));
+        }
+
         // sanity check that the table_a join_col does not have duplicates, since the IOP is not sound otherwise
         #[cfg(debug_assertions)] 
         {
@@ -140,6 +147,13 @@ where PCS: PolynomialCommitmentScheme<E> {
         b_join_col_index: usize,
         transformed_a_cols: &Vec::<TrackedComm<E, PCS>>,
     ) -> Result<TableComm<E, PCS>, PolyIOPErrors> {
+        // check that there is one transformed column per column of table_a
+        if transformed_a_cols.len() != table_a.col_vals.len() {
+            return Err(PolyIOPErrors::InvalidParameters(
+                "FinalJoinOneToManyIOP Error: table_a and transformed_a_cols have different number of columns".to_string(),
+            ));
+        }
+
         // set up the result table
         let mut res_table_col_polys = transformed_a_cols.clone();
         res_table_col_polys.append(&mut table_b.col_vals.clone());
-- 
2.43.0


From fec672e4ceeb9258c2248d4c9f49cb10aa8a517e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:33 +0000
Subject: [PATCH 21/26] fix: one-to-many join accepted join column indices
 outside the tables

---
 .../final_join_one_to_many.rs                      | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/zksql_poly_iop/final_join_one_to_many/final_join_one_to_many.rs b/src/zksql_poly_iop/final_join_one_to_many/final_join_one_to_many.rs
index 56d6e89..57edb0e 100644
--- a/src/zksql_poly_iop/final_join_one_to_many/final_join_one_to_many.rs
+++ b/src/zksql_poly_iop/final_join_one_to_many/final_join_one_to_many.rs
@@ -61,6 +61,13 @@ where PCS: PolynomialCommitmentScheme<E> {
         b_join_col_index: usize,
         transformed_a_cols: &Vec::<TrackedPoly<E, PCS>>,
     ) -> Result<Table<E, PCS>, PolyIOPErrors> {
+        // check that the join columns exist
+        if a_join_col_index >= table_a.col_vals.len() || b_join_col_index >= table_b.col_vals.len() {
+            return Err(PolyIOPErrors::InvalidParameters(
+                "FinalJoinOneToManyIOP Error: join column index is out of bounds".to_string(),
+            ));
+        }
+
         // check that there is one transformed column per column of table_a
         if transformed_a_cols.len() != table_a.col_vals.len() {
             return Err(PolyIOPErrors::InvalidParameters(
@@ -147,6 +154,13 @@ where PCS: PolynomialCommitmentScheme<E> {
         b_join_col_index: usize,
         transformed_a_cols: &Vec::<TrackedComm<E, PCS>>,
     ) -> Result<TableComm<E, PCS>, PolyIOPErrors> {
+        // check that the join columns exist
+        if a_join_col_index >= table_a.col_vals.len() || b_join_col_index >= table_b.col_vals.len() {
+            return Err(PolyIOPErrors::InvalidParameters(
+                "FinalJoinOneToManyIOP Error: join column index is out of bounds".to_string(),
+            ));
+        }
+
         // check that there is one transformed column per column of table_a
         if transformed_a_cols.len() != table_a.col_vals.len() {
             return Err(PolyIOPErrors::InvalidParameters(
-- 
2.43.0


From 2da3a5018c43070f743dfe914bd3d878370eea1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:16 +0000
Subject: [PATCH 22/26] fix: set disjointness accepted sets sharing an element
 when the merged bag's selector counts it twice

---
 src/zksql_poly_iop/set_disjoint/set_disjoint.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/zksql_poly_iop/set_disjoint/set_disjoint.rs b/src/zksql_poly_iop/set_disjoint/set_disjoint.rs
index c86edc4..620f24b 100644
--- a/src/zksql_poly_iop/set_disjoint/set_disjoint.rs
+++ b/src/zksql_poly_iop/set_disjoint/set_disjoint.rs
@@ -9,6 +9,7 @@ use crate::{
     zksql_poly_iop::{
         bag_sum::bag_sum::BagSumIOP,
         bag_sort::bag_sort::BagStrictSortIOP,
+        selector_valid::selector_valid::SelectorValidIOP,
     },
 };
 use ark_std::Zero;
@@ -64,6 +65,12 @@ where PCS: PolynomialCommitmentScheme<E> {
             sum_bag,
         )?;
 
+        // Prove the selector of the bag_sum is boolean, so that an element of both bags cannot be merged into one row
+        SelectorValidIOP::<E, PCS>::prove(
+            prover_tracker,
+            &sum_bag.selector,
+        )?;
+
         // Prove the bag_sum is strictly sorted 
         BagStrictSortIOP::<E, PCS>::prove(
             prover_tracker,
@@ -92,6 +99,9 @@ where PCS: PolynomialCommitmentScheme<E> {
         // verify the bag_sum was created correctly
         BagSumIOP::<E, PCS>::verify(verifier_tracker, bag_a, bag_b, sum_bag)?;
 
+        // verify the selector of the bag_sum is boolean
+        SelectorValidIOP::<E, PCS>::verify(verifier_tracker, &sum_bag.selector)?;
+
         // verify the bag_sum is strictly sorted 
         BagStrictSortIOP::<E, PCS>::verify(verifier_tracker, sum_bag, range_bag)?;
 
-- 
2.43.0


From bd68fdd0d6aa3295c577af5d6df71cdca3f61ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:06 +0000
Subject: [PATCH 23/26] fix: group by accepted counts and sums split between
 the aggregates and a selector that is not boolean

---
 src/zksql_poly_iop/group_by/group_by.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/zksql_poly_iop/group_by/group_by.rs b/src/zksql_poly_iop/group_by/group_by.rs
index 8365813..a87329c 100644
--- a/src/zksql_poly_iop/group_by/group_by.rs
+++ b/src/zksql_poly_iop/group_by/group_by.rs
@@ -11,7 +11,7 @@ use crate::subroutines::pcs::PolynomialCommitmentScheme;
 use crate::{
     tracker::prelude::*,
     zksql_poly_iop::{
-        bag_multitool::bag_multitool::BagMultitoolIOP, bag_supp::{bag_supp::BagSuppIOP, utils::calc_bag_supp_advice}
+        bag_multitool::bag_multitool::BagMultitoolIOP, bag_supp::{bag_supp::BagSuppIOP, utils::calc_bag_supp_advice}, selector_valid::selector_valid::SelectorValidIOP
     },
 };
 
@@ -121,6 +121,9 @@ where PCS: PolynomialCommitmentScheme<E> {
         let support_multiplicity_poly = group_by_instructions.support_multiplicity.clone();
         let pre_grouping_col_bag = Bag::new(input_table.col_vals[grouping_col_idx].clone(), input_table.selector.clone());
 
+        // prove the selector of the grouped rows is boolean, otherwise counts and sums could be split between it and the aggregates
+        SelectorValidIOP::<E, PCS>::prove(prover_tracker, &supp_sel_poly)?;
+
         // 1. prove the grouping bag is a the support of the pre-grouping bag
         //    as part of this proof, it shows that support_multiplicity_poly is the relevent multiplicity vector for proving 
         //    the grouping bag is a subset of the support of the pre-grouping bag
@@ -210,6 +213,9 @@ where PCS: PolynomialCommitmentScheme<E> {
         let pre_grouping_col_bag = BagComm::new(input_table.col_vals[grouping_col_idx].clone(), input_table.selector.clone(), input_table.num_vars());
         
 
+        // verify the selector of the grouped rows is boolean
+        SelectorValidIOP::<E, PCS>::verify(verifier_tracker, &supp_sel_comm)?;
+
         // 1. verify the grouping bag is a the support of the pre-grouping bag
         //    as part of this proof, it shows that support_multiplicity_poly is the relevent multiplicity vector for proving 
         //    the grouping bag is a subset of the support of the pre-grouping bag
-- 
2.43.0


From 0b1b7360728d1f0085e81c09b4ec23452d63bb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:12 +0000
Subject: [PATCH 24/26] fix: sumcheck and zerocheck verifiers crashed on proofs
 with missing rounds or evaluations

---
 src/subroutines/poly_iop/sum_check/mod.rs      | 12 ++++++++++--
 src/subroutines/poly_iop/sum_check/verifier.rs |  7 +++++++
 src/subroutines/poly_iop/zero_check/mod.rs     | 12 ++++++++++--
 3 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/subroutines/poly_iop/sum_check/mod.rs b/src/subroutines/poly_iop/sum_check/mod.rs
index a400fcb..7545978 100644
--- a/src/subroutines/poly_iop/sum_check/mod.rs
+++ b/src/subroutines/poly_iop/sum_check/mod.rs
@@ -189,10 +189,18 @@ impl<F: PrimeField> SumCheck<F> for PolyIOP<F> {
     ) -> Result<Self::SumCheckSubClaim, PolyIOPErrors> {
         let start = start_timer!(|| "sum check verify");
 
+        // a proof of fewer rounds is refused before anything is sized by the number of variables
+        if proof.proofs.len() < aux_info.num_variables {
+            return Err(PolyIOPErrors::InvalidProof(format!(
+                "proof is incomplete: {} rounds of {}",
+                proof.proofs.len(),
+                aux_info.num_variables
+            )));
+        }
+
         transcript.append_serializable_element(b"aux info", aux_info)?;
         let mut verifier_state = IOPVerifierState::verifier_init(aux_info);
-        for i in 0..aux_info.num_variables {
-            let prover_msg = proof.proofs.get(i).expect("proof is incomplete");
+        for prover_msg in proof.proofs.iter().take(aux_info.num_variables) {
             transcript.append_serializable_element(b"prover msg", prover_msg)?;
             IOPVerifierState::verify_round_and_update_state(
                 &mut verifier_state,
diff --git a/src/subroutines/poly_iop/sum_check/verifier.rs b/src/subroutines/poly_iop/sum_check/verifier.rs
index df11b73..9ba14bd 100644
--- a/src/subroutines/poly_iop/sum_check/verifier.rs
+++ b/src/subroutines/poly_iop/sum_check/verifier.rs
@@ -111,6 +111,13 @@ impl<F: PrimeField> SumCheckVerifier<F> for IOPVerifierState<F> {
             ));
         }
 
+        // every round has at least its evaluations at 0 and 1
+        if self.max_degree == usize::MAX || self.polynomials_received.iter().any(|e| e.len() < 2) {
+            return Err(PolyIOPErrors::InvalidVerifier(
+                "incorrect number of evaluations".to_string(),
+            ));
+        }
+
         // the deferred check during the interactive phase:
         // 2. set `expected` to P(r)`
         #[cfg(feature = "parallel")]
diff --git a/src/subroutines/poly_iop/zero_check/mod.rs b/src/subroutines/poly_iop/zero_check/mod.rs
index 37cb19f..c6173b3 100644
--- a/src/subroutines/poly_iop/zero_check/mod.rs
+++ b/src/subroutines/poly_iop/zero_check/mod.rs
@@ -89,10 +89,18 @@ impl<F: PrimeField> ZeroCheck<F> for PolyIOP<F> {
         let start = start_timer!(|| "zero check verify");
 
         // check that the sum is zero
-        if proof.proofs[0].evaluations[0] + proof.proofs[0].evaluations[1] != F::zero() {
+        let sum = match proof.proofs.first().map(|msg| msg.evaluations.as_slice()) {
+            Some([at_zero, at_one, ..]) => *at_zero + at_one,
+            _ => {
+                return Err(PolyIOPErrors::InvalidProof(
+                    "zero check: proof is incomplete".to_string(),
+                ))
+            },
+        };
+        if sum != F::zero() {
             return Err(PolyIOPErrors::InvalidProof(format!(
                 "zero check: sum {} is not zero",
-                proof.proofs[0].evaluations[0] + proof.proofs[0].evaluations[1]
+                sum
             )));
         }
 
-- 
2.43.0


From 6c373660c5abb57900a1a6c0786fdcc748ee97b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:12 +0000
Subject: [PATCH 25/26] fix: batch verification crashed on lists of different
 lengths

---
 src/subroutines/pcs/multilinear_kzg/batching.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/subroutines/pcs/multilinear_kzg/batching.rs b/src/subroutines/pcs/multilinear_kzg/batching.rs
index 8c75895..d215c07 100644
--- a/src/subroutines/pcs/multilinear_kzg/batching.rs
+++ b/src/subroutines/pcs/multilinear_kzg/batching.rs
@@ -225,12 +225,20 @@ where
 {
     let open_timer = start_timer!(|| "batch verification");
 
-    // TODO: sanity checks
-
     let k = f_i_commitments.len();
     let ell = log2(k) as usize;
     let num_var = proof.sum_check_proof.point.len();
 
+    // one point and one claimed evaluation per commitment
+    if points.len() != k || proof.f_i_eval_at_point_i.len() != k {
+        return Err(PCSError::InvalidProof(format!(
+            "batch verification of {} commitments at {} points with {} evaluations",
+            k,
+            points.len(),
+            proof.f_i_eval_at_point_i.len()
+        )));
+    }
+
     // the points and claimed evaluations are fixed before they are combined with t
     for point in points.iter() {
         transcript.append_serializable_element(b"point", point)?;
-- 
2.43.0


From 6b6f89c5e1688d702b30346cb813f067b22fb21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:12 +0000
Subject: [PATCH 26/26] fix: verify_claims crashed or ran without end on proofs
 whose parts do not fit together

---
 src/tracker/verifier_tracker.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/tracker/verifier_tracker.rs b/src/tracker/verifier_tracker.rs
index 36770f2..1d75678 100644
--- a/src/tracker/verifier_tracker.rs
+++ b/src/tracker/verifier_tracker.rs
@@ -367,6 +367,15 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> VerifierTracker<E, PCS> {
     pub fn verify_claims(&mut self) -> Result<(), PolyIOPErrors> {
         let nv = self.proof.sc_aux_info.num_variables;
 
+        // nothing is sized by a number of variables that the proof does not have rounds for
+        if self.proof.sc_proof.proofs.len() != nv {
+            return Err(PolyIOPErrors::InvalidProof(format!(
+                "sumcheck proof has {} rounds for {} variables",
+                self.proof.sc_proof.proofs.len(),
+                nv
+            )));
+        }
+
         // aggregate zerocheck claims into a single sumcheck claim
         self.convert_zerocheck_claims_to_sumcheck_claim(nv); // Note: SumCheck val should be zero
 
@@ -396,9 +405,15 @@ impl<E: Pairing, PCS: PolynomialCommitmentScheme<E>> VerifierTracker<E, PCS> {
         let sumcheck_point = iop_verify_subclaim.point.clone();
         let mut comm_ids = self.proof.comms.keys().cloned().collect::<Vec<TrackerID>>();
         comm_ids.sort(); // sort so the transcript is generated consistently
-        let comms = comm_ids.iter().map(|id| self.get_mat_comm(*id).unwrap().clone()).collect::<Vec<PCS::Commitment>>();
+        let comms = comm_ids.iter()
+            .map(|id| self.get_mat_comm(*id).cloned().ok_or_else(|| {
+                PolyIOPErrors::InvalidProof(format!("commitment {:?} was never tracked", id))
+            }))
+            .collect::<Result<Vec<PCS::Commitment>, PolyIOPErrors>>()?;
         let points = vec![sumcheck_point.clone(); comm_ids.len()];
-        let batch_proof = self.proof.pcs_proof[0].clone();
+        let batch_proof = self.proof.pcs_proof.first().cloned().ok_or_else(|| {
+            PolyIOPErrors::InvalidProof("no batch opening proof".to_string())
+        })?;
         let pcs_verify_res = PCS::batch_verify(&self.pcs_params, &comms, points.as_slice(), &batch_proof, &mut self.transcript);
         if !pcs_verify_res? {
             return Err(PolyIOPErrors::InvalidProof("batch opening proof does not verify".to_string()));
-- 
2.43.0

