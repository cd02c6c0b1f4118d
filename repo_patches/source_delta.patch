From eea6e3e6f4bc1500a5a8a481de845ce28d1cbce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 01/26] fix: spartan NIZK verifier checks the evaluation point
 against the transcript

The verifier evaluated the constraint matrices at the point carried in the
proof and ignored the point the sum-check transcript produced, so a prover
could choose the point after seeing all challenges.
---
 spartan/src/verify.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spartan/src/verify.rs b/spartan/src/verify.rs
index 91d242d..c3ba375 100644
--- a/spartan/src/verify.rs
+++ b/spartan/src/verify.rs
@@ -39,7 +39,7 @@ pub fn verify_nizk_proof<G: Curve>(
     let eval_a_r = evaluate_mle::<G>(&r1cs.a_matrix, rx, ry);
     let eval_b_r = evaluate_mle::<G>(&r1cs.b_matrix, rx, ry);
     let eval_c_r = evaluate_mle::<G>(&r1cs.c_matrix, rx, ry);
-    let (result, _, _) = r1cs_satisfied_verify::<G>(
+    let (result, transcript_rx, transcript_ry) = r1cs_satisfied_verify::<G>(
         &params.r1cs_satisfied_params,
         r1cs,
         inputs,
@@ -48,7 +48,9 @@ pub fn verify_nizk_proof<G: Curve>(
         &mut transcript,
     )?;
 
-    Ok(result)
+    // The matrices were evaluated at the point supplied with the proof: it has
+    // to be the point that the transcript produced.
+    Ok(result && *rx == transcript_rx && *ry == transcript_ry)
 }
 
 pub fn verify_snark_proof<G: Curve>(
-- 
2.43.0


From b2d85dfdf4fd4b859cbaa11127eea259616809e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 02/26] fix: spartan sparse_evaluate_value keeps the index of
 each value

Indices were assigned after zero values had been filtered out, so a zero
public input shifted every later one and honest proofs were rejected.
---
 spartan/src/polynomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spartan/src/polynomial.rs b/spartan/src/polynomial.rs
index b3d7e17..b182f1d 100644
--- a/spartan/src/polynomial.rs
+++ b/spartan/src/polynomial.rs
@@ -41,8 +41,8 @@ pub fn sparse_evaluate_value<G: Curve>(value: &Vec<G::Fr>, r: &Vec<G::Fr>) -> G:
     let num_bits = r.len();
     let result = value
         .iter()
-        .filter(|&v| !v.is_zero())
         .enumerate()
+        .filter(|(_, v)| !v.is_zero())
         .map(|(i, v)| {
             let bits = (0..num_bits)
                 .map(|shift_amount| ((i & (1 << (num_bits - shift_amount - 1))) > 0))
-- 
2.43.0


From 6153a4679d129c12a49a03557c2e70106dae13ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 03/26] fix: spartan proofs no longer carry the witness
 evaluation w_ry

The field was never read by the verifier; it published an evaluation of the
witness polynomial in the clear and could be changed freely.
---
 spartan/src/data_structure.rs | 1 -
 spartan/src/prover.rs         | 1 -
 2 files changed, 2 deletions(-)

diff --git a/spartan/src/data_structure.rs b/spartan/src/data_structure.rs
index 805dd26..ef38f6e 100644
--- a/spartan/src/data_structure.rs
+++ b/spartan/src/data_structure.rs
@@ -191,7 +191,6 @@ pub struct R1CSSatProof<G: Curve> {
     pub commit_witness: Vec<G::Affine>,
     pub proof_one: SumCheckProof<G>,
     pub proof_two: SumCheckProof<G>,
-    pub w_ry: G::Fr,
     pub product_proof: DotProductProof<G>,
     pub knowledge_product_commit: KnowledgeProductCommit<G>,
     pub knowledge_product_proof: KnowledgeProductProof<G>,
diff --git a/spartan/src/prover.rs b/spartan/src/prover.rs
index 95b672d..f2cfe37 100644
--- a/spartan/src/prover.rs
+++ b/spartan/src/prover.rs
@@ -407,7 +407,6 @@ where
         commit_witness: commit_witness,
         proof_one: proof_sc1,
         proof_two: proof_sc2,
-        w_ry: eval_w_ry,
         product_proof: wproof,
         knowledge_product_commit,
         knowledge_product_proof,
-- 
2.43.0


From 5c9ff2ac38a1550691668bcb60a9c747832c26df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:27 +0000
Subject: [PATCH 04/26] fix: libra linear GKR verifier evaluates the circuit's
 gates

The values claimed for the layer's multiplication and addition predicates
were taken from the proof and never compared with the circuit, so a proof
made for one circuit convinced the verifier of another.
---
 libra/src/libra_linear_gkr.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libra/src/libra_linear_gkr.rs b/libra/src/libra_linear_gkr.rs
index 82ae52f..a9b74c2 100644
--- a/libra/src/libra_linear_gkr.rs
+++ b/libra/src/libra_linear_gkr.rs
@@ -122,11 +122,13 @@ impl<G: Curve> LinearGKRProof<G> {
         transcript.append_message(b"output", &to_bytes!(outputs).unwrap());
         let mut alpha = G::Fr::one();
         let mut beta = G::Fr::zero();
-        let (mut result_u, _) = eval_output::<G>(
+        let (mut result_u, gu) = eval_output::<G>(
             &outputs,
             circuit.layers[circuit.depth - 1].bit_size,
             &mut transcript,
         );
+        let mut gu_vec = gu.clone();
+        let mut gv_vec = gu;
         let mut result_v = G::Fr::zero();
         let mut eval_ru_x = G::Fr::zero();
         let mut eval_rv_y = G::Fr::zero();
@@ -178,6 +180,14 @@ impl<G: Curve> LinearGKRProof<G> {
                 + &(eval_rv_final[2] * &eval_ru_final[0])
                 + &(eval_rv_final[2] * &eval_rv_final[0]);
             assert_eq!(claim, claim_final);
+            // The claimed gate evaluations have to be those of the circuit.
+            let (add_gate_eval, mult_gate_eval) = circuit.layers[circuit.depth - d - 1]
+                .eval_operators::<G>(&gu_vec, &gv_vec, &ru_vec, &rv_vec, alpha, beta);
+            if eval_rv_final[1] != mult_gate_eval || eval_rv_final[2] != add_gate_eval {
+                return false;
+            }
+            gu_vec = ru_vec.clone();
+            gv_vec = rv_vec.clone();
             if d < circuit.depth - 2 {
                 result_u = eval_ru_final[0];
                 result_v = eval_rv_final[0];
-- 
2.43.0


From 770ad74c421bd9a590e20757f0eeb247de8242db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 05/26] fix: libra and hyrax circuit evaluation pads inputs and
 witnesses correctly

The two halves of the input layer were padded with each other's missing
length, so the layout was wrong whenever their lengths differed.
---
 hyrax/src/circuit.rs | 4 ++--
 libra/src/circuit.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyrax/src/circuit.rs b/hyrax/src/circuit.rs
index 42b2bd7..1e32ff3 100644
--- a/hyrax/src/circuit.rs
+++ b/hyrax/src/circuit.rs
@@ -129,9 +129,9 @@ impl Circuit {
                 assert!(input_size >= inputs.len());
                 assert!(input_size >= aux.len());
                 values = aux.clone();
-                values.extend(&vec![G::Fr::zero(); input_size - inputs.len()]);
-                values.extend(inputs.clone());
                 values.extend(&vec![G::Fr::zero(); input_size - aux.len()]);
+                values.extend(inputs.clone());
+                values.extend(&vec![G::Fr::zero(); input_size - inputs.len()]);
             } else {
                 let next_layer_size = next_layer_values.len();
                 for gate in layer.gates.iter() {
diff --git a/libra/src/circuit.rs b/libra/src/circuit.rs
index ff03927..913afce 100644
--- a/libra/src/circuit.rs
+++ b/libra/src/circuit.rs
@@ -151,9 +151,9 @@ impl Circuit {
                 assert!(input_size >= inputs.len());
                 assert!(input_size >= aux.len());
                 values = aux.clone();
-                values.extend(&vec![G::Fr::zero(); input_size - inputs.len()]);
-                values.extend(inputs.clone());
                 values.extend(&vec![G::Fr::zero(); input_size - aux.len()]);
+                values.extend(inputs.clone());
+                values.extend(&vec![G::Fr::zero(); input_size - inputs.len()]);
             } else {
                 let next_layer_size = next_layer_values.len();
                 for gate in layer.gates.iter() {
-- 
2.43.0


From cf022ddf3e6cea7dcf57b741a5c185bb84c736a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:58 +0000
Subject: [PATCH 06/26] fix: hyrax blinds the third sum-check with its own
 scalars

The offset used the size of the wrong layer: blinding factors of the second
sum-check were used again, or the index ran past the end of the vector.
---
 hyrax/src/zk_sumcheck_proof.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hyrax/src/zk_sumcheck_proof.rs b/hyrax/src/zk_sumcheck_proof.rs
index 1d8f373..6522a7a 100644
--- a/hyrax/src/zk_sumcheck_proof.rs
+++ b/hyrax/src/zk_sumcheck_proof.rs
@@ -58,7 +58,6 @@ impl<G: Curve> ZkSumcheckProof<G> {
         let mut comm_claim = comm_a0;
         let mut claim = claim;
 
-        let log_g = ql_vec.len();
         let log_ng: usize = log2(ng) as usize;
         let log_n: usize = log2(n) as usize;
         let fr_two: G::Fr = 2u32.into();
@@ -428,7 +427,7 @@ impl<G: Curve> ZkSumcheckProof<G> {
                 &params.gen_1.generators,
                 &vec![eval_ri],
                 &params.gen_1.h,
-                r_alpha_eval_vec[log_n + log_g + j],
+                r_alpha_eval_vec[log_n + log_ng + j],
             );
             transcript.append_message(b"comm_claim_per_round", &to_bytes!(comm_claim).unwrap());
             transcript.append_message(b"comm_eval", &to_bytes!(comm_eval).unwrap());
-- 
2.43.0


From eef37644542b56ae9d139b3e802da0152421eb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 07/26] fix: hyrax verifier checks each layer against the claim
 it has to prove

The layer proof was checked against the commitment it carried itself, so the
claimed outputs were not tied to the circuit evaluation.
---
 hyrax/src/hyrax_proof.rs       | 26 +++++++++++++++-----------
 hyrax/src/zk_sumcheck_proof.rs | 13 ++++++++++---
 2 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/hyrax/src/hyrax_proof.rs b/hyrax/src/hyrax_proof.rs
index d2bd23c..3c89100 100644
--- a/hyrax/src/hyrax_proof.rs
+++ b/hyrax/src/hyrax_proof.rs
@@ -252,17 +252,21 @@ impl<G: Curve> HyraxProof<G> {
         for d in 0..circuit.depth - 1 {
             let next_gate_num = circuit.layers[circuit.depth - d - 2].gates_count;
             let ng = next_gate_num.next_power_of_two();
-            let (comm_x_tmp, comm_y_tmp, q_aside_vec_tmp, ql_vec_tmp, qr_vec_tmp) = self.proofs[d]
-                .verify(
-                    &params.sc_params,
-                    comm_a,
-                    (u0, u1),
-                    (&q_aside_vec, &ql_vec, &qr_vec),
-                    &circuit.layers[circuit.depth - d - 1].gates,
-                    n,
-                    ng,
-                    &mut transcript,
-                );
+            let layer_claims = self.proofs[d].verify(
+                &params.sc_params,
+                comm_a,
+                (u0, u1),
+                (&q_aside_vec, &ql_vec, &qr_vec),
+                &circuit.layers[circuit.depth - d - 1].gates,
+                n,
+                ng,
+                &mut transcript,
+            );
+            let (comm_x_tmp, comm_y_tmp, q_aside_vec_tmp, ql_vec_tmp, qr_vec_tmp) =
+                match layer_claims {
+                    Some(claims) => claims,
+                    None => return false,
+                };
 
             comm_x = comm_x_tmp;
             comm_y = comm_y_tmp;
diff --git a/hyrax/src/zk_sumcheck_proof.rs b/hyrax/src/zk_sumcheck_proof.rs
index 6522a7a..dfc80fc 100644
--- a/hyrax/src/zk_sumcheck_proof.rs
+++ b/hyrax/src/zk_sumcheck_proof.rs
@@ -628,7 +628,12 @@ impl<G: Curve> ZkSumcheckProof<G> {
         n: usize,
         ng: usize,
         transcript: &mut Transcript,
-    ) -> (G::Affine, G::Affine, Vec<G::Fr>, Vec<G::Fr>, Vec<G::Fr>) {
+    ) -> Option<(G::Affine, G::Affine, Vec<G::Fr>, Vec<G::Fr>, Vec<G::Fr>)> {
+        // The final check below is made against the prover's comm_a0: it has to
+        // be the claim that this layer is supposed to prove.
+        if self.comm_a0 != comm_claim {
+            return None;
+        }
         let mut comm_claim = comm_claim;
         let log_ng = log2(ng) as usize;
         let log_n = log2(n) as usize;
@@ -660,9 +665,11 @@ impl<G: Curve> ZkSumcheckProof<G> {
         let m_vec = construct_matrix::<G>((&rs, &r0, &r1), q_vec, gates, u, log_n, log_ng);
 
         let result = self.sumcheck_verify(params, &m_vec, log_ng, log_n, transcript);
-        assert!(result);
+        if !result {
+            return None;
+        }
 
-        (self.comm_x, self.comm_y, rs, r0, r1)
+        Some((self.comm_x, self.comm_y, rs, r0, r1))
     }
 
     pub fn sumcheck_verify(
-- 
2.43.0


From 45c7d9459d6b145d00410a672602abd0f421cdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 08/26] fix: bulletproofs verifier ties the inner product
 statement to l, r and t

The statement of the inner product argument was taken from the proof and
never related to l_x, r_x and t_x, so t_x could be chosen at will.
---
 bulletproofs/src/arithmetic_circuit.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bulletproofs/src/arithmetic_circuit.rs b/bulletproofs/src/arithmetic_circuit.rs
index 0229cd7..f888402 100755
--- a/bulletproofs/src/arithmetic_circuit.rs
+++ b/bulletproofs/src/arithmetic_circuit.rs
@@ -799,6 +799,16 @@ pub fn verify_proof<G: Curve>(
     // check tx ?= <lx, rx>
     // USE IPP here
     // assert_eq!(proof.t_x, inner_product::<G::Fr>(&proof.l_x, &proof.r_x));
+    // IPP_P has to be the commitment to lx, rx and tx that IPP opens.
+    if proof.l_x.len() != gens.N || proof.r_x.len() != gens.N {
+        return Ok(false);
+    }
+    let ipp_commitment = quick_multiexp::<G>(&proof.l_x, &gens.g_vec_N)
+        + &quick_multiexp::<G>(&proof.r_x, &gens.h_vec_N)
+        + &ux.mul(proof.t_x);
+    if proof.IPP_P.into_projective() != ipp_commitment {
+        return Ok(false);
+    }
     if !inner_product_proof::verify(
         &mut transcript,
         gens.g_vec_N.clone(),
-- 
2.43.0


From f5fadf381a859031e6c1abbb799a5fef2ac0ccc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:57 +0000
Subject: [PATCH 09/26] fix: bulletproofs inner product verifier checks the
 number of rounds

The vector length was derived from the proof: additional rounds open vectors
longer than the generators, whose extra entries are committed to by nothing.
---
 bulletproofs/src/inner_product_proof.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/bulletproofs/src/inner_product_proof.rs b/bulletproofs/src/inner_product_proof.rs
index 6ddb672..fc7efee 100755
--- a/bulletproofs/src/inner_product_proof.rs
+++ b/bulletproofs/src/inner_product_proof.rs
@@ -118,9 +118,17 @@ pub fn verify<G: Curve>(
     P: &G::Projective,
     proof: &Proof<G>,
 ) -> bool {
-    let lg_n = proof.L_vec.len();
-    let n = 1 << lg_n;
-    assert_eq!(lg_n, proof.R_vec.len());
+    // The proof has to have one round per halving of the generators, otherwise
+    // it speaks about vectors of another length.
+    let n = g_vec.len();
+    let lg_n = n.trailing_zeros() as usize;
+    if !n.is_power_of_two()
+        || h_vec.len() != n
+        || proof.L_vec.len() != lg_n
+        || proof.R_vec.len() != lg_n
+    {
+        return false;
+    }
     transcript.append_u64(b"n", n as u64);
     transcript.append_message(b"u", &to_bytes!(u).unwrap());
     transcript.append_message(b"P", &to_bytes!(P).unwrap());
-- 
2.43.0


From f841d27390962cbe8a1b182cd905e32fd35c3c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 10/26] fix: bulletproofs verifier rejects instead of aborting
 when the T check fails

---
 bulletproofs/src/arithmetic_circuit.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bulletproofs/src/arithmetic_circuit.rs b/bulletproofs/src/arithmetic_circuit.rs
index f888402..3acff50 100755
--- a/bulletproofs/src/arithmetic_circuit.rs
+++ b/bulletproofs/src/arithmetic_circuit.rs
@@ -838,7 +838,9 @@ pub fn verify_proof<G: Curve>(
             + &proof.T_9.mul(xxxx * &(xxxx * &x))
             + &proof.T_10.mul(xxxx * &(xxxx * &xx));
 
-    assert_eq!(checkT_lhs, checkT_rhs);
+    if checkT_lhs != checkT_rhs {
+        return Ok(false);
+    }
 
     let y_n_neg: Vec<G::Fr> = (0..gens.N).map(|i| -one * &y_n[i]).collect();
     let P = proof.A_I.mul(xx)
-- 
2.43.0


From 4b66bb3d4968a903ffb7656d95767b816a3b09da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:12 +0000
Subject: [PATCH 11/26] fix: poseidon and rescue gadgets compute the hash they
 are given as public output

The exponentiation started from zero and dropped its last multiplication, so
the circuit computed a constant; the capacity element, the accumulators and the
MDS matrix were unconstrained witnesses.
---
 gadgets/src/hashes/poseidon.rs | 53 +++++++++++++-----------------
 gadgets/src/hashes/rescue.rs   | 59 ++++++++++++++++------------------
 2 files changed, 49 insertions(+), 63 deletions(-)

diff --git a/gadgets/src/hashes/poseidon.rs b/gadgets/src/hashes/poseidon.rs
index 45c7e18..6a6a23f 100644
--- a/gadgets/src/hashes/poseidon.rs
+++ b/gadgets/src/hashes/poseidon.rs
@@ -629,6 +629,12 @@ pub fn poseidon<F: PrimeField, CS: ConstraintSystem<F>>(
 
     let three = F::zero();
     let var_three = cs.alloc(|| "preimage tmp", || Ok(three))?;
+    cs.enforce(
+        || "preimage tmp = 0",
+        |lc| lc + var_three,
+        |lc| lc + CS::one(),
+        |lc| lc,
+    );
     let mut state_value = [xl, xr, three];
     let mut state = [var_xl, var_xr, var_three];
     let cs = &mut cs.ns(|| "Preassign");
@@ -668,37 +674,22 @@ pub fn poseidon<F: PrimeField, CS: ConstraintSystem<F>>(
 
         // Mix Layer
         let mut tmp2_value = [F::zero(); M];
-        let mut tmp2 = Vec::with_capacity(3);
-        for j in 0..M {
-            tmp2.push(cs.alloc(|| format!("tmp2[{}]", j), || Ok(tmp2_value[j]))?);
-        }
-
+        let mut tmp2 = Vec::with_capacity(M);
         for j in 0..M {
             for k in 0..M {
-                let mut tmp3_value = constants.mds[j][k];
-                let tmp3 = cs.alloc(|| format!("tmp3_{}{}", j, k), || Ok(tmp3_value))?;
-
-                tmp3_value.mul_assign(&state_value[k]);
-                tmp3_value.add_assign(&tmp2_value[j]);
-                let tmp4_value = tmp3_value;
-
-                let tmp4 = cs.alloc(|| format!("tmp4_{}{}", j, k), || Ok(tmp4_value))?;
-
-                cs.enforce(
-                    || {
-                        format!(
-                            "tmp4_{}{} - tmp2[{}] = tmp3_value * state_value[{}]",
-                            j, k, j, k
-                        )
-                    },
-                    |lc| lc + tmp3,
-                    |lc| lc + state[k],
-                    |lc| lc + tmp4 - tmp2[j],
-                );
-
-                tmp2_value[j] = tmp4_value;
-                tmp2[j] = tmp4;
+                tmp2_value[j] += constants.mds[j][k] * state_value[k];
             }
+            let mixed_value = tmp2_value[j];
+            let mixed = cs.alloc(|| format!("tmp2[{}]", j), || Ok(mixed_value))?;
+
+            cs.enforce(
+                || format!("tmp2[{}] = sum(mds[{}][k] * state[k])", j, j),
+                |lc| (0..M).fold(lc, |lc, k| lc + (constants.mds[j][k], state[k])),
+                |lc| lc + CS::one(),
+                |lc| lc + mixed,
+            );
+
+            tmp2.push(mixed);
         }
         for j in 0..M {
             state[j] = tmp2[j];
@@ -724,8 +715,8 @@ fn pow_with_constraint<F: PrimeField, CS: ConstraintSystem<F>, S: AsRef<[u64]>>(
     cs: &mut CS,
     j: usize,
 ) -> Result<(F, Variable), SynthesisError> {
-    let mut res_value = F::zero();
-    let mut res = cs.alloc(|| format!("res_{}", j), || Ok(res_value))?;
+    let mut res_value = F::one();
+    let mut res = CS::one();
 
     let mut found_one = false;
     let mut cnt = 0;
@@ -763,7 +754,7 @@ fn pow_with_constraint<F: PrimeField, CS: ConstraintSystem<F>, S: AsRef<[u64]>>(
                 |lc| lc + *state,
                 |lc| lc + tmp2,
             );
-            res_value = tmp_value;
+            res_value = tmp2_value;
             res = tmp2;
         }
         cnt += 1;
diff --git a/gadgets/src/hashes/rescue.rs b/gadgets/src/hashes/rescue.rs
index a072ded..3649f51 100644
--- a/gadgets/src/hashes/rescue.rs
+++ b/gadgets/src/hashes/rescue.rs
@@ -411,6 +411,12 @@ pub fn rescue<F: PrimeField, CS: ConstraintSystem<F>>(
 
     let three = F::zero();
     let var_three = cs.alloc(|| "preimage tmp", || Ok(three))?;
+    cs.enforce(
+        || "preimage tmp = 0",
+        |lc| lc + var_three,
+        |lc| lc + CS::one(),
+        |lc| lc,
+    );
     let mut state_value = [xl, xr, three];
     let mut state = [var_xl, var_xr, var_three];
     let cs = &mut cs.ns(|| "Preassign");
@@ -440,40 +446,29 @@ pub fn rescue<F: PrimeField, CS: ConstraintSystem<F>>(
             state[j] = tuple.1;
         }
         let mut tmp2_value = [F::zero(); M];
-        let mut tmp2 = Vec::with_capacity(3);
-        for j in 0..M {
-            tmp2.push(cs.alloc(|| format!("tmp2_{}", j), || Ok(tmp2_value[j]))?);
-        }
+        let mut tmp2 = Vec::with_capacity(M);
         for j in 0..M {
+            tmp2_value[j] = constants.constants[i + 1][j];
             for k in 0..M {
-                let mut tmp3_value = constants.mds[j][k];
-                let tmp3 = cs.alloc(|| format!("tmp3_{}{}", j, k), || Ok(tmp3_value))?;
-                tmp3_value.mul_assign(&state_value[k]);
-                tmp3_value.add_assign(&tmp2_value[j]);
-                let tmp4_value = tmp3_value;
-                let tmp4 = cs.alloc(|| format!("tmp4_{}{}", j, k), || Ok(tmp4_value))?;
-                cs.enforce(
-                    || format!("tmp4 - tmp2[{}] = tmp3_{}{} * state_value[{}]", j, j, k, k),
-                    |lc| lc + tmp3,
-                    |lc| lc + state[k],
-                    |lc| lc + tmp4 - tmp2[j],
-                );
-                tmp2_value[j] = tmp4_value;
-                tmp2[j] = tmp4;
+                tmp2_value[j] += constants.mds[j][k] * state_value[k];
             }
-        }
-        for j in 0..M {
-            tmp2_value[j].add_assign(constants.constants[i + 1][j]);
-            let tmp5_value = tmp2_value[j];
-            let tmp5 = cs.alloc(|| format!("tmp5_{}", j), || Ok(tmp5_value))?;
+            let mixed_value = tmp2_value[j];
+            let mixed = cs.alloc(|| format!("tmp2_{}", j), || Ok(mixed_value))?;
             cs.enforce(
-                || format!("tmp5_{} = tmp2[{}] + constants[{}][{}]", j, j, i + 1, j),
-                |lc| lc + tmp2[j] + (constants.constants[i + 1][j], CS::one()),
-                |lc| lc + (F::one(), CS::one()),
-                |lc| lc + tmp5,
+                || format!("tmp2_{} = sum(mds[{}][k] * state[k]) + Ci", j, j),
+                |lc| {
+                    (0..M).fold(lc + (constants.constants[i + 1][j], CS::one()), |lc, k| {
+                        lc + (constants.mds[j][k], state[k])
+                    })
+                },
+                |lc| lc + CS::one(),
+                |lc| lc + mixed,
             );
-            state[j] = tmp5;
-            state_value[j] = tmp5_value;
+            tmp2.push(mixed);
+        }
+        for j in 0..M {
+            state[j] = tmp2[j];
+            state_value[j] = tmp2_value[j];
         }
     }
     let output = cs.alloc_input(|| "output", || Ok(state_value[0]))?;
@@ -493,8 +488,8 @@ fn pow_with_constraint<F: PrimeField, CS: ConstraintSystem<F>, S: AsRef<[u64]>>(
     cs: &mut CS,
     j: usize,
 ) -> Result<(F, Variable), SynthesisError> {
-    let mut res_value = F::zero();
-    let mut res = cs.alloc(|| format!("res_{}", j), || Ok(res_value))?;
+    let mut res_value = F::one();
+    let mut res = CS::one();
 
     let mut found_one = false;
     let mut cnt = 0;
@@ -532,7 +527,7 @@ fn pow_with_constraint<F: PrimeField, CS: ConstraintSystem<F>, S: AsRef<[u64]>>(
                 |lc| lc + *state,
                 |lc| lc + tmp2,
             );
-            res_value = tmp_value;
+            res_value = tmp2_value;
             res = tmp2;
         }
         cnt += 1;
-- 
2.43.0


From 99850abee4038cf4827f52a0c82174bb9c577a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:16 +0000
Subject: [PATCH 12/26] fix: hash_enforce constrains its output to the hash of
 the input variables

The output variables were fresh witnesses that no constraint tied to the
inputs, so a Merkle membership circuit accepted any path.
---
 gadgets/src/hashes/mimc.rs     | 68 +++++++++++++++++++++++++--------
 gadgets/src/hashes/poseidon.rs | 69 +++++++++++++++++++++++-----------
 gadgets/src/hashes/rescue.rs   | 68 +++++++++++++++++++++++----------
 gadgets/src/hashes/sha256.rs   | 14 +++----
 4 files changed, 154 insertions(+), 65 deletions(-)

diff --git a/gadgets/src/hashes/mimc.rs b/gadgets/src/hashes/mimc.rs
index 90bc312..ac292c2 100644
--- a/gadgets/src/hashes/mimc.rs
+++ b/gadgets/src/hashes/mimc.rs
@@ -95,11 +95,19 @@ pub fn hash<F: PrimeField>(b: &[u8]) -> F {
 }
 
 pub fn mimc<F: PrimeField, CS: ConstraintSystem<F>>(
-    mut cs: CS,
+    cs: CS,
     b: Option<&[u8]>,
 ) -> Result<Option<F>, SynthesisError> {
+    mimc_output(cs, b).map(|(image_value, _)| image_value)
+}
+
+/// same as `mimc`, and also returns the variable which holds the image.
+pub fn mimc_output<F: PrimeField, CS: ConstraintSystem<F>>(
+    mut cs: CS,
+    b: Option<&[u8]>,
+) -> Result<(Option<F>, Variable), SynthesisError> {
     let constants = constants::<F>();
-    let (mut xl_value, mut xr_value, image_value) = match b {
+    let (xl_value, xr_value, image_value) = match b {
         Some(bytes) => {
             let (xl, xr, image) = mimc_hash(bytes, &constants);
             (Some(xl), Some(xr), Some(image))
@@ -107,15 +115,32 @@ pub fn mimc<F: PrimeField, CS: ConstraintSystem<F>>(
         None => (None, None, None),
     };
 
-    let mut var_xl = cs.alloc(
+    let var_xl = cs.alloc(
         || "preimage xl",
         || xl_value.ok_or(SynthesisError::AssignmentMissing),
     )?;
-    let mut var_xr = cs.alloc(
+    let var_xr = cs.alloc(
         || "preimage xr",
         || xr_value.ok_or(SynthesisError::AssignmentMissing),
     )?;
 
+    let (_, var_image) = mimc_block_enforce(
+        &mut cs,
+        (xl_value, var_xl),
+        (xr_value, var_xr),
+        &constants,
+    )?;
+
+    Ok((image_value, var_image))
+}
+
+/// constraints of `mimc_block`, returns the output value and its variable.
+fn mimc_block_enforce<F: PrimeField, CS: ConstraintSystem<F>>(
+    cs: &mut CS,
+    (mut xl_value, mut var_xl): (Option<F>, Variable),
+    (mut xr_value, mut var_xr): (Option<F>, Variable),
+    constants: &[F],
+) -> Result<(Option<F>, Variable), SynthesisError> {
     for i in 0..MIMC_ROUNDS {
         let mut n_cs = cs.ns(|| format!("rounds_{}", i));
 
@@ -156,7 +181,7 @@ pub fn mimc<F: PrimeField, CS: ConstraintSystem<F>>(
         var_xl = var_new_xl;
     }
 
-    Ok(image_value)
+    Ok((xl_value, var_xl))
 }
 
 /// implement AbstractHashOutput.
@@ -222,19 +247,30 @@ impl<F: PrimeField> AbstractHash<F> for AbstractHashMimc<F> {
         mut cs: CS,
         params: &[&Self::Output],
     ) -> Result<Self::Output, SynthesisError> {
-        let mut bytes = vec![];
-        for o in params.iter() {
-            if let Some(l) = o.get_value() {
-                l.write(&mut bytes)
-                    .map_err(|e| SynthesisError::IoError(e))?;
-            } else {
-                return Err(SynthesisError::AssignmentMissing);
-            }
-        }
+        let constants = constants::<F>();
+
+        let zero = cs.alloc(|| "mimc_init", || Ok(F::zero()))?;
+        cs.enforce(
+            || "mimc_init = 0",
+            |lc| lc + zero,
+            |lc| lc + CS::one(),
+            |lc| lc,
+        );
 
-        let r = mimc(cs.ns(|| format!("mimc_hash")), Some(&bytes))?;
+        let mut h = (Some(F::zero()), zero);
+        for (i, o) in params.iter().enumerate() {
+            h = mimc_block_enforce(
+                &mut cs.ns(|| format!("mimc_hash_{}", i)),
+                h,
+                (o.value, o.variable),
+                &constants,
+            )?;
+        }
 
-        AbstractHashMimcOutput::alloc(cs.ns(|| "mimc_output"), r)
+        Ok(AbstractHashMimcOutput {
+            value: h.0,
+            variable: h.1,
+        })
     }
 }
 
diff --git a/gadgets/src/hashes/poseidon.rs b/gadgets/src/hashes/poseidon.rs
index 6a6a23f..7786a88 100644
--- a/gadgets/src/hashes/poseidon.rs
+++ b/gadgets/src/hashes/poseidon.rs
@@ -627,6 +627,30 @@ pub fn poseidon<F: PrimeField, CS: ConstraintSystem<F>>(
     let var_xl = cs.alloc(|| "preimage xl", || Ok(xl))?;
     let var_xr = cs.alloc(|| "preimage xr", || Ok(xr))?;
 
+    let (output_value, var_output) = poseidon_block_enforce(
+        &mut cs.ns(|| "Preassign"),
+        (xl, var_xl),
+        (xr, var_xr),
+        &constants,
+    )?;
+
+    let output = cs.alloc_input(|| "output", || Ok(output_value))?;
+    cs.enforce(
+        || "output = image",
+        |lc| lc + CS::one(),
+        |lc| lc + var_output,
+        |lc| lc + output,
+    );
+    Ok(image)
+}
+
+/// constraints of `poseidon_block`, returns the output value and its variable.
+fn poseidon_block_enforce<F: PrimeField, CS: ConstraintSystem<F>>(
+    cs: &mut CS,
+    (xl, var_xl): (F, Variable),
+    (xr, var_xr): (F, Variable),
+    constants: &PoseidonConstant<F>,
+) -> Result<(F, Variable), SynthesisError> {
     let three = F::zero();
     let var_three = cs.alloc(|| "preimage tmp", || Ok(three))?;
     cs.enforce(
@@ -637,7 +661,6 @@ pub fn poseidon<F: PrimeField, CS: ConstraintSystem<F>>(
     );
     let mut state_value = [xl, xr, three];
     let mut state = [var_xl, var_xr, var_three];
-    let cs = &mut cs.ns(|| "Preassign");
 
     for i in 0..POSEIDON_ROUNDS {
         let cs = &mut cs.ns(|| format!("round_{}", i));
@@ -697,15 +720,7 @@ pub fn poseidon<F: PrimeField, CS: ConstraintSystem<F>>(
         }
     }
 
-    let output = cs.alloc_input(|| "output", || Ok(state_value[0]))?;
-
-    cs.enforce(
-        || "output = tmp2[j] + constants[i+1][j]",
-        |lc| lc + (F::one(), CS::one()),
-        |lc| lc + state[0],
-        |lc| lc + output,
-    );
-    Ok(image)
+    Ok((state_value[0], state[0]))
 }
 
 fn pow_with_constraint<F: PrimeField, CS: ConstraintSystem<F>, S: AsRef<[u64]>>(
@@ -811,19 +826,31 @@ impl<F: PrimeField> AbstractHash<F> for AbstractHashPoseidon<F> {
         mut cs: CS,
         params: &[&Self::Output],
     ) -> Result<Self::Output, SynthesisError> {
-        let mut bytes = vec![];
-        for o in params.iter() {
-            if let Some(l) = o.get_value() {
-                l.write(&mut bytes)
-                    .map_err(|e| SynthesisError::IoError(e))?;
-            } else {
-                return Err(SynthesisError::AssignmentMissing);
-            }
-        }
+        let constants = constants::<F>();
 
-        let r = poseidon(cs.ns(|| format!("poseidon_hash")), &bytes)?;
+        let zero = cs.alloc(|| "poseidon_init", || Ok(F::zero()))?;
+        cs.enforce(
+            || "poseidon_init = 0",
+            |lc| lc + zero,
+            |lc| lc + CS::one(),
+            |lc| lc,
+        );
 
-        AbstractHashPoseidonOutput::alloc(cs.ns(|| "poseidon_hash"), Some(r))
+        let mut h = (F::zero(), zero);
+        for (i, o) in params.iter().enumerate() {
+            let value = o.value.ok_or(SynthesisError::AssignmentMissing)?;
+            h = poseidon_block_enforce(
+                &mut cs.ns(|| format!("poseidon_hash_{}", i)),
+                h,
+                (value, o.variable),
+                &constants,
+            )?;
+        }
+
+        Ok(AbstractHashPoseidonOutput {
+            value: Some(h.0),
+            variable: h.1,
+        })
     }
 }
 
diff --git a/gadgets/src/hashes/rescue.rs b/gadgets/src/hashes/rescue.rs
index 3649f51..cd70d54 100644
--- a/gadgets/src/hashes/rescue.rs
+++ b/gadgets/src/hashes/rescue.rs
@@ -409,6 +409,30 @@ pub fn rescue<F: PrimeField, CS: ConstraintSystem<F>>(
     let var_xl = cs.alloc(|| "preimage xl", || Ok(xl))?;
     let var_xr = cs.alloc(|| "preimage xr", || Ok(xr))?;
 
+    let (output_value, var_output) = rescue_block_enforce(
+        &mut cs.ns(|| "Preassign"),
+        (xl, var_xl),
+        (xr, var_xr),
+        &constants,
+    )?;
+
+    let output = cs.alloc_input(|| "output", || Ok(output_value))?;
+    cs.enforce(
+        || "output = image",
+        |lc| lc + CS::one(),
+        |lc| lc + var_output,
+        |lc| lc + output,
+    );
+    Ok(image)
+}
+
+/// constraints of `rescue_block`, returns the output value and its variable.
+fn rescue_block_enforce<F: PrimeField, CS: ConstraintSystem<F>>(
+    cs: &mut CS,
+    (xl, var_xl): (F, Variable),
+    (xr, var_xr): (F, Variable),
+    constants: &RescueConstant<F>,
+) -> Result<(F, Variable), SynthesisError> {
     let three = F::zero();
     let var_three = cs.alloc(|| "preimage tmp", || Ok(three))?;
     cs.enforce(
@@ -419,7 +443,6 @@ pub fn rescue<F: PrimeField, CS: ConstraintSystem<F>>(
     );
     let mut state_value = [xl, xr, three];
     let mut state = [var_xl, var_xr, var_three];
-    let cs = &mut cs.ns(|| "Preassign");
     for i in 0..M {
         state_value[i] += constants.constants[0][i];
         let tmp_value = state_value[i];
@@ -471,14 +494,7 @@ pub fn rescue<F: PrimeField, CS: ConstraintSystem<F>>(
             state_value[j] = tmp2_value[j];
         }
     }
-    let output = cs.alloc_input(|| "output", || Ok(state_value[0]))?;
-    cs.enforce(
-        || "output = tmp2[j] + constants[i+1][j]",
-        |lc| lc + (F::one(), CS::one()),
-        |lc| lc + state[0],
-        |lc| lc + output,
-    );
-    Ok(image)
+    Ok((state_value[0], state[0]))
 }
 
 fn pow_with_constraint<F: PrimeField, CS: ConstraintSystem<F>, S: AsRef<[u64]>>(
@@ -584,19 +600,31 @@ impl<F: PrimeField> AbstractHash<F> for AbstractHashRescue<F> {
         mut cs: CS,
         params: &[&Self::Output],
     ) -> Result<Self::Output, SynthesisError> {
-        let mut bytes = vec![];
-        for o in params.iter() {
-            if let Some(l) = o.get_value() {
-                l.write(&mut bytes)
-                    .map_err(|e| SynthesisError::IoError(e))?;
-            } else {
-                return Err(SynthesisError::AssignmentMissing);
-            }
-        }
+        let constants = constants::<F>();
 
-        let r = rescue(cs.ns(|| format!("rescue_hash")), &bytes)?;
+        let zero = cs.alloc(|| "rescue_init", || Ok(F::zero()))?;
+        cs.enforce(
+            || "rescue_init = 0",
+            |lc| lc + zero,
+            |lc| lc + CS::one(),
+            |lc| lc,
+        );
 
-        AbstractHashRescueOutput::alloc(cs.ns(|| "rescue_hash"), Some(r))
+        let mut h = (F::zero(), zero);
+        for (i, o) in params.iter().enumerate() {
+            let value = o.value.ok_or(SynthesisError::AssignmentMissing)?;
+            h = rescue_block_enforce(
+                &mut cs.ns(|| format!("rescue_hash_{}", i)),
+                h,
+                (value, o.variable),
+                &constants,
+            )?;
+        }
+
+        Ok(AbstractHashRescueOutput {
+            value: Some(h.0),
+            variable: h.1,
+        })
     }
 }
 
diff --git a/gadgets/src/hashes/sha256.rs b/gadgets/src/hashes/sha256.rs
index f464780..809d015 100644
--- a/gadgets/src/hashes/sha256.rs
+++ b/gadgets/src/hashes/sha256.rs
@@ -350,14 +350,12 @@ impl<F: PrimeField> AbstractHash<F> for AbstractHashSha256<F> {
 
         let booleans = sha256(cs.ns(|| "sha256"), &inputs)?;
 
-        let var: Vec<Variable> = booleans
-            .iter()
-            .enumerate()
-            .map(|(i, b)| {
-                let a = AllocatedBit::alloc(cs.ns(|| format!("bit_{}", i)), b.get_value()).unwrap(); // TODO
-                a.get_variable()
-            })
-            .collect();
+        let mut var: Vec<Variable> = Vec::with_capacity(booleans.len());
+        for (i, b) in booleans.iter().enumerate() {
+            let a = AllocatedBit::alloc(cs.ns(|| format!("bit_{}", i)), b.get_value())?;
+            Boolean::enforce_equal(cs.ns(|| format!("bit_{} = output", i)), &a.into(), b)?;
+            var.push(a.get_variable());
+        }
 
         Ok(AbstractHashSha256Output {
             value: Some(booleans),
-- 
2.43.0


From 024b976ad15b2bc3d0208466aaa9b99390f60eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:16 +0000
Subject: [PATCH 13/26] fix: hash circuit of the command line tool constrains
 the public image

---
 cli/src/circuits/hash.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/cli/src/circuits/hash.rs b/cli/src/circuits/hash.rs
index 0cc482e..17af9bf 100644
--- a/cli/src/circuits/hash.rs
+++ b/cli/src/circuits/hash.rs
@@ -1,5 +1,5 @@
 use ark_ff::PrimeField;
-use zkp_gadgets::hashes::mimc::{hash, mimc};
+use zkp_gadgets::hashes::mimc::{hash, mimc_output};
 use zkp_r1cs::{ConstraintSynthesizer, ConstraintSystem, SynthesisError};
 
 use super::{CliCircuit, Publics};
@@ -14,17 +14,24 @@ impl<F: PrimeField> ConstraintSynthesizer<F> for Hash<F> {
         self,
         cs: &mut CS,
     ) -> Result<(), SynthesisError> {
-        let value = if let Some(bytes) = self.image {
-            mimc(cs.ns(|| "mimc-gadget"), Some(&bytes))?
+        let (value, output) = if let Some(bytes) = self.image {
+            mimc_output(cs.ns(|| "mimc-gadget"), Some(&bytes))?
         } else {
-            mimc(cs.ns(|| "mimc-gadget"), None)?
+            mimc_output(cs.ns(|| "mimc-gadget"), None)?
         };
 
-        let _ = cs.alloc_input(
+        let image = cs.alloc_input(
             || "image",
             || value.ok_or(SynthesisError::AssignmentMissing),
         )?;
 
+        cs.enforce(
+            || "image = mimc(preimage)",
+            |lc| lc + output,
+            |lc| lc + CS::one(),
+            |lc| lc + image,
+        );
+
         Ok(())
     }
 }
-- 
2.43.0


From 0f413e3a0afa23fe9bb5a05dd4f96de565971f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:55 +0000
Subject: [PATCH 14/26] fix: lookup1_x uses the table as constants

The two table entries were allocated as witnesses that nothing constrained.
---
 gadgets/src/lookup/table.rs | 54 ++++++++++++-------------------------
 1 file changed, 17 insertions(+), 37 deletions(-)

diff --git a/gadgets/src/lookup/table.rs b/gadgets/src/lookup/table.rs
index 6e3935b..6455262 100644
--- a/gadgets/src/lookup/table.rs
+++ b/gadgets/src/lookup/table.rs
@@ -34,43 +34,23 @@ where
 {
     assert_eq!(c.len(), 2);
 
-    if let Boolean::Constant(cond) = *b {
-        if cond {
-            AllocatedFr::alloc(cs.ns(|| "lookup_true"), || Ok(c[1]))
-        } else {
-            AllocatedFr::alloc(cs.ns(|| "lookup_false"), || Ok(c[0]))
-        }
-    } else {
-        let true_value = AllocatedFr::alloc(cs.ns(|| "lookup_true"), || Ok(c[1]))?;
-        let false_value = AllocatedFr::alloc(cs.ns(|| "lookup_false"), || Ok(c[0]))?;
-
-        let result = AllocatedFr::alloc(cs.ns(|| ""), || {
-            b.get_value()
-                .and_then(|cond| {
-                    if cond {
-                        true_value.clone()
-                    } else {
-                        false_value.clone()
-                    }
-                    .get_value()
-                })
-                .ok_or(SynthesisError::AssignmentMissing)
-        })?;
-        // a = self; b = other; c = cond;
-        //
-        // r = c * a + (1  - c) * b
-        // r = b + c * (a - b)
-        // c * (a - b) = r - b
-        let one = CS::one();
-        cs.enforce(
-            || "conditionally_select",
-            |_| b.lc(one, F::one()),
-            |lc| lc + true_value.get_variable() - false_value.get_variable(),
-            |lc| lc + result.get_variable() - false_value.get_variable(),
-        );
-
-        Ok(result)
-    }
+    let result = AllocatedFr::alloc(cs.ns(|| "lookup result"), || {
+        b.get_value()
+            .map(|cond| if cond { c[1] } else { c[0] })
+            .ok_or(SynthesisError::AssignmentMissing)
+    })?;
+
+    // r = cond * c1 + (1 - cond) * c0
+    // cond * (c1 - c0) = r - c0
+    let one = CS::one();
+    cs.enforce(
+        || "conditionally_select",
+        |_| b.lc(one, F::one()),
+        |lc| lc + (c[1] - &c[0], one),
+        |lc| lc + result.get_variable() - (c[0], one),
+    );
+
+    Ok(result)
 }
 
 /// Performs a 2-bit window table lookup. `bits` is in
-- 
2.43.0


From 3815bfbce460111599fa9d5b29c7590677da06ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:26 +0000
Subject: [PATCH 15/26] fix: plonk verifier batches the openings with factors
 drawn from the transcript

---
 plonk/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/plonk/src/lib.rs b/plonk/src/lib.rs
index 7f21878..206115a 100644
--- a/plonk/src/lib.rs
+++ b/plonk/src/lib.rs
@@ -274,6 +274,11 @@ impl<F: Field, D: Digest, PC: PolynomialCommitment<F, DensePolynomial<F>>> Plonk
                 &evaluations,
             )?;
 
+            // the openings are batched with random factors, which must not be known
+            // before the openings are fixed.
+            let openings: Vec<PC::Proof> = proof.pc_proof.proof.clone().into();
+            fs_rng.absorb(&to_bytes![openings].unwrap());
+
             PC::check_combinations(
                 &vk.rk,
                 &lcs,
@@ -282,7 +287,7 @@ impl<F: Field, D: Digest, PC: PolynomialCommitment<F, DensePolynomial<F>>> Plonk
                 &evaluations,
                 &proof.pc_proof,
                 epsilon,
-                &mut ark_std::test_rng(), // we now impl default rng (not use)
+                &mut fs_rng,
             )
             .map_err(Error::from_pc_err)?
         };
-- 
2.43.0


From b492c33dc5ef2919e6a3588121acb21d128c2263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:24 +0000
Subject: [PATCH 16/26] fix: spartan snark checks every read and write claim of
 the memory checking

---
 spartan/src/verify.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spartan/src/verify.rs b/spartan/src/verify.rs
index c3ba375..791b96e 100644
--- a/spartan/src/verify.rs
+++ b/spartan/src/verify.rs
@@ -1058,6 +1058,11 @@ where
         eval_init_addr * &gamma1 * &gamma1 + &(eval_init_val * &gamma1) - &gamma2;
     assert_eq!(claim_init, hash_init_at_rand_mem);
 
+    // one address and one timestamp for every claim, or some claims would not be checked
+    assert_eq!(eval_addr_ops_list.len(), claim_read_list.len());
+    assert_eq!(eval_read_ts_list.len(), claim_read_list.len());
+    assert_eq!(claim_read_list.len(), claim_write_list.len());
+
     for i in 0..eval_addr_ops_list.len() {
         let hash_read_at_rand_ops = eval_addr_ops_list[i] * &gamma1 * &gamma1
             + &(eval_ops_val[i] * &gamma1)
-- 
2.43.0


From 85edb6ccd6b176f2e9294b18b2adbfcca70ca4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:39 +0000
Subject: [PATCH 17/26] fix: constants of the scalar field of Curve25519

(q-1)/2, T and (T-1)/2 missed their two upper limbs, the generator was a square
and the root of unity zero, so that sqrt() did not terminate and legendre() was wrong.
---
 curve25519/src/fr.rs | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/curve25519/src/fr.rs b/curve25519/src/fr.rs
index 7d47627..28a047c 100644
--- a/curve25519/src/fr.rs
+++ b/curve25519/src/fr.rs
@@ -17,10 +17,10 @@ impl FftParameters for FrParameters {
 
     #[rustfmt::skip]
     const TWO_ADIC_ROOT_OF_UNITY: BigInteger = BigInteger([
-        0x0,
-        0x0,
-        0x0,
-        0x0,
+        8969215743819189885u64,
+        5516037659391044808u64,
+        15508184678381615533u64,
+        385507852950656554u64,
     ]);
 }
 
@@ -62,38 +62,38 @@ impl FpParameters for FrParameters {
     /// INV = -(q^{-1} mod 2^64) mod 2^64
     const INV: u64 = 15183074304973897243u64;
 
-    /// GENERATOR = 9
+    /// GENERATOR = 2
     const GENERATOR: BigInteger = BigInteger([
-        14824341744311508637u64,
-        6301218275840713796u64,
-        18446744073709551604u64,
+        6180627327055779405u64,
+        8718896354912633355u64,
+        18446744073709551613u64,
         1152921504606846975u64,
     ]);
 
     /// (Self::MODULUS - 1) / 2
     #[rustfmt::skip]
     const MODULUS_MINUS_ONE_DIV_TWO: BigInteger = BigInteger([
-        13876462170967809896,
-        12031312481604134578,
+        3173121894899182070,
+        751957030100258411,
         0,
-        0
+        576460752303423488
     ]);
 
     /// t for 2^s * t = MODULUS - 1
     #[rustfmt::skip]
     const T: BigInteger = BigInteger([
-        6938231085483904948,
-        6015656240802067289,
+        10809932984304366843,
+        375978515050129205,
         0,
-        0
+        288230376151711744
     ]);
 
     /// (t - 1) / 2
     #[rustfmt::skip]
     const T_MINUS_ONE_DIV_TWO: BigInteger = BigInteger([
-        2367949182742163228,
-        18046968722406201868,
+        14628338529006959229,
+        187989257525064602,
         0,
-        0
+        144115188075855872
     ]);
 }
-- 
2.43.0


From e467660e0a868b54f0bfa0f2f185c7386c22097a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:00 +0000
Subject: [PATCH 18/26] fix: reject proofs whose rounds do not have the
 expected number of commitments

The Marlin and PLONK verifiers took the commitments of a round as they came and
matched them with the polynomials in the order of all rounds, so a prover could
move commitments of the first round to the second and choose them after seeing
the challenges. Malformed lists of commitments and openings are rejected instead
of aborting the verifier.
---
 marlin/src/ahp/mod.rs            |  5 +++++
 marlin/src/lib.rs                |  9 +++++++++
 marlin/src/pc/data_structures.rs |  1 +
 marlin/src/pc/mod.rs             | 10 +++++++---
 plonk/src/ahp/mod.rs             |  5 +++++
 plonk/src/lib.rs                 |  9 +++++++++
 6 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/marlin/src/ahp/mod.rs b/marlin/src/ahp/mod.rs
index d500e3f..860867c 100644
--- a/marlin/src/ahp/mod.rs
+++ b/marlin/src/ahp/mod.rs
@@ -56,6 +56,11 @@ impl<F: PrimeField> AHP<F> {
         "g_2", "h_2",
     ];
 
+    /// number of polynomials sent in each round.
+    pub const FIRST_ROUND_POLYNOMIALS: usize = 4;
+    pub const SECOND_ROUND_POLYNOMIALS: usize = 3;
+    pub const THIRD_ROUND_POLYNOMIALS: usize = 2;
+
     pub fn polynomial_labels() -> impl Iterator<Item = String> {
         Self::INDEXER_POLYNOMIALS
             .iter()
diff --git a/marlin/src/lib.rs b/marlin/src/lib.rs
index ce31855..59f67e4 100644
--- a/marlin/src/lib.rs
+++ b/marlin/src/lib.rs
@@ -186,6 +186,15 @@ pub fn verify_proof<E: PairingEngine>(
     proof: &Proof<E>,
     public_input: &[E::Fr],
 ) -> Result<bool, SynthesisError> {
+    // every round has to fix all of its polynomials before its challenges are drawn.
+    if proof.commitments.len() != 3
+        || proof.commitments[0].len() != AHP::<E::Fr>::FIRST_ROUND_POLYNOMIALS
+        || proof.commitments[1].len() != AHP::<E::Fr>::SECOND_ROUND_POLYNOMIALS
+        || proof.commitments[2].len() != AHP::<E::Fr>::THIRD_ROUND_POLYNOMIALS
+    {
+        return Ok(false);
+    }
+
     let mut fs_rng = FiatShamirRng::from_seed(&to_bytes![&ivk, &public_input].unwrap());
 
     let first_comms = &proof.commitments[0];
diff --git a/marlin/src/pc/data_structures.rs b/marlin/src/pc/data_structures.rs
index 1d22f75..a9f697d 100644
--- a/marlin/src/pc/data_structures.rs
+++ b/marlin/src/pc/data_structures.rs
@@ -12,6 +12,7 @@ use crate::{BTreeMap, BTreeSet, Cow, String, Vec};
 pub enum Error {
     MissingPolynomial { label: String },
     MissingEvaluation { label: String },
+    MissingShiftedCommitment,
     DegreeIsZero,
     DegreeOutOfBound,
     HidingBoundIsZero,
diff --git a/marlin/src/pc/mod.rs b/marlin/src/pc/mod.rs
index 1e42d09..35d44d5 100644
--- a/marlin/src/pc/mod.rs
+++ b/marlin/src/pc/mod.rs
@@ -174,7 +174,9 @@ impl<E: PairingEngine> PC<E> {
             let labels = point_to_labels_map.entry(point).or_insert(BTreeSet::new());
             labels.insert(label);
         }
-        assert_eq!(point_to_labels_map.len(), proofs.len());
+        if point_to_labels_map.len() != proofs.len() {
+            return Ok(false);
+        }
 
         let commitments: BTreeMap<_, _> = commitments.into_iter().map(|c| (c.label(), c)).collect();
 
@@ -215,7 +217,9 @@ impl<E: PairingEngine> PC<E> {
         for (labeled_commitment, value) in commitments.into_iter().zip(values) {
             let degree_bound = labeled_commitment.degree_bound();
             let commitment = labeled_commitment.commitment();
-            assert_eq!(degree_bound.is_some(), commitment.shifted_comm.is_some());
+            if degree_bound.is_some() != commitment.shifted_comm.is_some() {
+                return Err(Error::MissingShiftedCommitment);
+            }
             combined_comm += &commitment.comm.0.mul(challenge);
             combined_value += &(value * &challenge);
 
@@ -224,7 +228,7 @@ impl<E: PairingEngine> PC<E> {
                 let shifted_comm = commitment
                     .shifted_comm
                     .as_ref()
-                    .unwrap()
+                    .ok_or(Error::MissingShiftedCommitment)?
                     .0
                     .into_projective();
                 let shifted_degree = vk.supported_degree - degree_bound;
diff --git a/plonk/src/ahp/mod.rs b/plonk/src/ahp/mod.rs
index b8dede5..bd04901 100644
--- a/plonk/src/ahp/mod.rs
+++ b/plonk/src/ahp/mod.rs
@@ -26,6 +26,11 @@ impl<F: Field> AHPForPLONK<F> {
     pub const LABELS: [&'static str; 9] =
         ["w_0", "w_1", "w_2", "w_3", "z", "t_0", "t_1", "t_2", "t_3"];
 
+    /// number of polynomials sent in each round.
+    pub const FIRST_ROUND_POLYNOMIALS: usize = 4;
+    pub const SECOND_ROUND_POLYNOMIALS: usize = 1;
+    pub const THIRD_ROUND_POLYNOMIALS: usize = 4;
+
     pub fn construct_linear_combinations(
         info: &IndexInfo<F>,
         first_msg: &FirstMsg<F>,
diff --git a/plonk/src/lib.rs b/plonk/src/lib.rs
index 206115a..91d483a 100644
--- a/plonk/src/lib.rs
+++ b/plonk/src/lib.rs
@@ -208,6 +208,15 @@ impl<F: Field, D: Digest, PC: PolynomialCommitment<F, DensePolynomial<F>>> Plonk
         public_inputs: &[F],
         proof: Proof<F, PC>,
     ) -> Result<bool, Error<PC::Error>> {
+        // every round has to fix all of its polynomials before its challenges are drawn.
+        if proof.commitments.len() != 3
+            || proof.commitments[0].len() != AHPForPLONK::<F>::FIRST_ROUND_POLYNOMIALS
+            || proof.commitments[1].len() != AHPForPLONK::<F>::SECOND_ROUND_POLYNOMIALS
+            || proof.commitments[2].len() != AHPForPLONK::<F>::THIRD_ROUND_POLYNOMIALS
+        {
+            return Ok(false);
+        }
+
         let vs = AHPForPLONK::verifier_init(&vk.info)?;
         let mut fs_rng =
             FiatShamirRng::<D>::from_seed(&to_bytes![&Self::PROTOCOL_NAME, public_inputs].unwrap());
-- 
2.43.0


From ff87cdc47bb9f0e9ae02eef45399d9706904ffa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:00 +0000
Subject: [PATCH 19/26] fix: reject a wrong number of public inputs in the
 Bulletproofs verifier

It aborted the caller instead.
---
 bulletproofs/src/arithmetic_circuit.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bulletproofs/src/arithmetic_circuit.rs b/bulletproofs/src/arithmetic_circuit.rs
index 3acff50..c7b7a9c 100755
--- a/bulletproofs/src/arithmetic_circuit.rs
+++ b/bulletproofs/src/arithmetic_circuit.rs
@@ -617,6 +617,11 @@ pub fn verify_proof<G: Curve>(
     r1cs_circuit: &R1csCircuit<G>,
     public_inputs: &[G::Fr],
 ) -> Result<bool, SynthesisError> {
+    // the constant one and the public inputs are the first k variables of the circuit.
+    if public_inputs.len() + 1 != gens.k {
+        return Ok(false);
+    }
+
     let mut transcript = Transcript::new(b"protocol3");
     let zero = G::Fr::zero();
     let one = G::Fr::one();
-- 
2.43.0


From ec4d9f8a96d169d197237a1e0df337c9174611f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:32 +0000
Subject: [PATCH 20/26] fix: reject malformed proofs in the Spartan verifiers
 instead of aborting

Lists of the wrong length and claims that do not match aborted the caller, the
first by indexing out of bounds, the second by assertions.
---
 spartan/src/inner_product.rs |   6 +-
 spartan/src/verify.rs        | 111 ++++++++++++++++++++---------------
 2 files changed, 68 insertions(+), 49 deletions(-)

diff --git a/spartan/src/inner_product.rs b/spartan/src/inner_product.rs
index defc662..6a1f434 100644
--- a/spartan/src/inner_product.rs
+++ b/spartan/src/inner_product.rs
@@ -6,6 +6,7 @@ use zkp_r1cs::SynthesisError;
 
 use crate::{
     data_structure::{random_bytes_to_fr, InnerProductProof},
+    verify::ensure,
     Vec,
 };
 
@@ -108,9 +109,10 @@ pub fn bullet_inner_product_verify<G: Curve>(
     b_vec: &Vec<G::Fr>,
     transcript: &mut Transcript,
 ) -> Result<(G::Fr, G::Affine, G::Affine), SynthesisError> {
+    let n = b_vec.len();
     let lg_n = proof.l_vec.len();
-    let n = 1 << lg_n;
-    assert_eq!(lg_n, proof.r_vec.len());
+    ensure(lg_n == log2(n) as usize)?;
+    ensure(lg_n == proof.r_vec.len())?;
 
     let mut x_sq_vec = Vec::with_capacity(lg_n);
     let mut x_inv_sq_vec = Vec::with_capacity(lg_n);
diff --git a/spartan/src/verify.rs b/spartan/src/verify.rs
index 791b96e..1ab0aee 100644
--- a/spartan/src/verify.rs
+++ b/spartan/src/verify.rs
@@ -22,6 +22,15 @@ use crate::{
     Vec,
 };
 
+/// a check that the proof has to pass.
+pub(crate) fn ensure(passed: bool) -> Result<(), SynthesisError> {
+    if passed {
+        Ok(())
+    } else {
+        Err(SynthesisError::Unsatisfiable)
+    }
+}
+
 pub fn verify_nizk_proof<G: Curve>(
     params: &NizkParameters<G>,
     r1cs: &R1CSInstance<G>,
@@ -299,6 +308,10 @@ fn sum_check_verify<G: Curve>(
     num_rounds: usize,
     transcript: &mut Transcript,
 ) -> Result<(Vec<G::Fr>, G::Affine), SynthesisError> {
+    ensure(proof.comm_polys.len() == num_rounds)?;
+    ensure(proof.comm_evals.len() == num_rounds)?;
+    ensure(proof.proofs.len() == num_rounds)?;
+
     let mut commit_claim = commit_claim;
 
     let mut rx: Vec<G::Fr> = Vec::new();
@@ -349,6 +362,8 @@ fn sum_check_eval_verify<G: Curve>(
     size: usize,
     transcript: &mut Transcript,
 ) -> Result<bool, SynthesisError> {
+    ensure(proof.z.len() == size)?;
+
     let w = (0..2)
         .map(|_i| {
             let mut buf = [0u8; 31];
@@ -435,6 +450,8 @@ fn product_verify<G: Curve>(
     prod_commit: G::Affine,
     transcript: &mut Transcript,
 ) -> Result<bool, SynthesisError> {
+    ensure(proof.z.len() == 5)?;
+
     let z1 = proof.z[0];
     let z2 = proof.z[1];
     let z3 = proof.z[2];
@@ -555,7 +572,7 @@ fn sparse_poly_eval_verify<G: Curve>(
     let (rx, ry) = equalize_length::<G>(&rx, &ry)?;
 
     let (n, m) = (encode_commit.n, encode_commit.m);
-    assert_eq!((2usize).pow(rx.len() as u32), m);
+    ensure((2usize).pow(rx.len() as u32) == m)?;
 
     transcript.append_message(
         b"comm_poly_row_col_ops_val",
@@ -579,9 +596,9 @@ fn sparse_poly_eval_verify<G: Curve>(
             &vec![eval_a_r, eval_b_r, eval_c_r],
             transcript,
         )?;
-    assert_eq!(claims_mem.len(), 4);
-    assert_eq!(claims_ops.len(), 12);
-    assert_eq!(claims_ops_dotp.len(), 9);
+    ensure(claims_mem.len() == 4)?;
+    ensure(claims_ops.len() == 12)?;
+    ensure(claims_ops_dotp.len() == 9)?;
 
     let claims_ops_row_read = claims_ops[0..3].to_vec();
     let claims_ops_row_write = claims_ops[3..6].to_vec();
@@ -613,7 +630,7 @@ fn sparse_poly_eval_verify<G: Curve>(
         transcript,
     )
     .is_ok();
-    assert!(result);
+    ensure(result)?;
 
     Ok(true)
 }
@@ -643,19 +660,19 @@ where
     let (col_init, col_read_list, col_write_list, col_audit) = &proof.eval_col;
     let (eval_dotp_left_list, eval_dotp_right_list) = &proof.eval_dotp;
 
-    assert_eq!(row_read_list.len(), 3);
-    assert_eq!(row_write_list.len(), 3);
-    assert_eq!(col_read_list.len(), 3);
-    assert_eq!(col_write_list.len(), 3);
-    assert_eq!(eval_dotp_left_list.len(), 3);
-    assert_eq!(eval_dotp_right_list.len(), 3);
-    assert_eq!(evals.len(), 3);
+    ensure(row_read_list.len() == 3)?;
+    ensure(row_write_list.len() == 3)?;
+    ensure(col_read_list.len() == 3)?;
+    ensure(col_write_list.len() == 3)?;
+    ensure(eval_dotp_left_list.len() == 3)?;
+    ensure(eval_dotp_right_list.len() == 3)?;
+    ensure(evals.len() == 3)?;
 
     let row_read: G::Fr = (0..row_read_list.len()).map(|i| row_read_list[i]).product();
     let row_write: G::Fr = (0..row_write_list.len())
         .map(|i| row_write_list[i])
         .product();
-    assert_eq!(*row_init * &row_write, row_read * row_audit);
+    ensure(*row_init * &row_write == row_read * row_audit)?;
 
     transcript.append_message(b"claim_row_eval_init", &to_bytes!(row_init)?);
     transcript.append_message(b"claim_row_eval_read", &to_bytes!(row_read_list)?);
@@ -666,7 +683,7 @@ where
     let col_write: G::Fr = (0..col_write_list.len())
         .map(|i| col_write_list[i])
         .product();
-    assert_eq!(*col_init * &col_write, col_read * col_audit);
+    ensure(*col_init * &col_write == col_read * col_audit)?;
 
     transcript.append_message(b"claim_col_eval_init", &to_bytes!(col_init)?);
     transcript.append_message(b"claim_col_eval_read", &to_bytes!(col_read_list)?);
@@ -675,7 +692,7 @@ where
 
     let mut claims_dotp_circuit = Vec::new();
     for i in 0..eval_dotp_left_list.len() {
-        assert_eq!(eval_dotp_left_list[i] + &eval_dotp_right_list[i], evals[i]);
+        ensure(eval_dotp_left_list[i] + &eval_dotp_right_list[i] == evals[i])?;
         transcript.append_message(b"claim_eval_dotp_left", &to_bytes!(eval_dotp_left_list[i])?);
         transcript.append_message(
             b"claim_eval_dotp_right",
@@ -726,7 +743,7 @@ pub fn product_circuit_eval_verify<G: Curve>(
     let layer_num = log2(n) as usize;
     let mut claims_to_verify = claims_prod_circuit.clone();
 
-    assert_eq!(proof.layers_proof.len(), layer_num);
+    ensure(proof.layers_proof.len() == layer_num)?;
 
     let mut num_rounds = 0;
     let mut rands = Vec::new();
@@ -756,14 +773,14 @@ pub fn product_circuit_eval_verify<G: Curve>(
         )?;
         let claim_prod_left = &proof.layers_proof[i].claim_prod_left;
         let claim_prod_right = &proof.layers_proof[i].claim_prod_right;
-        assert_eq!(claim_prod_left.len(), claim_prod_right.len());
-        assert_eq!(claim_prod_left.len(), claims_prod_circuit.len());
+        ensure(claim_prod_left.len() == claim_prod_right.len())?;
+        ensure(claim_prod_left.len() == claims_prod_circuit.len())?;
         for i in 0..claim_prod_left.len() {
             transcript.append_message(b"claim_prod_left", &to_bytes!(claim_prod_left[i])?);
             transcript.append_message(b"claim_prod_right", &to_bytes!(claim_prod_right[i])?);
         }
 
-        assert_eq!(rands.len(), r.len());
+        ensure(rands.len() == r.len())?;
         let eq: G::Fr = (0..r.len())
             .map(|i| r[i] * &rands[i] + &((G::Fr::one() - &r[i]) * &(G::Fr::one() - &rands[i])))
             .product();
@@ -774,6 +791,9 @@ pub fn product_circuit_eval_verify<G: Curve>(
 
         if i == layer_num - 1 {
             let (claim_dotp_row, claim_dotp_col, claim_dotp_val) = &proof.claim_dotp;
+            ensure(claim_dotp_row.len() == claims_dotp_circuit.len())?;
+            ensure(claim_dotp_col.len() == claims_dotp_circuit.len())?;
+            ensure(claim_dotp_val.len() == claims_dotp_circuit.len())?;
             for i in 0..claim_dotp_row.len() {
                 transcript.append_message(b"claim_dotp_row", &to_bytes!(claim_dotp_row[i])?);
                 transcript.append_message(b"claim_dotp_col", &to_bytes!(claim_dotp_col[i])?);
@@ -786,7 +806,7 @@ pub fn product_circuit_eval_verify<G: Curve>(
             }
         }
 
-        assert_eq!(claim_expected, claim_final);
+        ensure(claim_expected == claim_final)?;
         let mut buf = [0u8; 31];
         transcript.challenge_bytes(b"challenge_r_layer", &mut buf);
         let r_layer = random_bytes_to_fr::<G>(&buf);
@@ -825,13 +845,10 @@ pub fn sum_check_cubic_verify<G: Curve>(
     let mut claim_per_round = claim;
     let mut r = Vec::new();
 
-    assert_eq!(proof_poly.len(), num_rounds);
+    ensure(proof_poly.len() == num_rounds)?;
     for poly in proof_poly.iter() {
         transcript.append_message(b"comm_poly", &to_bytes!(poly.coeffs)?);
-        assert_eq!(
-            poly.evaluate(&G::Fr::zero()) + &poly.evaluate(&G::Fr::one()),
-            claim_per_round
-        );
+        ensure(poly.evaluate(&G::Fr::zero()) + &poly.evaluate(&G::Fr::one()) == claim_per_round)?;
         let mut buf = [0u8; 31];
         transcript.challenge_bytes(b"challenge_nextround", &mut buf);
         let r_j = random_bytes_to_fr::<G>(&buf);
@@ -857,7 +874,7 @@ pub fn hash_layer_verify<G: Curve>(
 ) -> Result<(), SynthesisError> {
     transcript.append_message(b"protocol-name", b"Sparse polynomial hash layer proof");
 
-    assert_eq!(claims_dotp.len(), 9);
+    ensure(claims_dotp.len() == 9)?;
     let (ops_rands, mem_rands) = rands;
     let (rx, ry) = r;
     // let (gamma1,gamma2) = gamma;
@@ -865,8 +882,8 @@ pub fn hash_layer_verify<G: Curve>(
     // let  (claims_col_init, claims_col_read_list, claims_col_write_list, claims_col_audit) = claims_col;
 
     let (eval_row_ops_val, eval_col_ops_val) = &proof.evals_derefs;
-    assert_eq!(eval_row_ops_val.len(), eval_col_ops_val.len());
-    assert_eq!(eval_row_ops_val.len(), 3);
+    ensure(eval_row_ops_val.len() == eval_col_ops_val.len())?;
+    ensure(eval_row_ops_val.len() == 3)?;
     let mut evals = eval_row_ops_val.clone();
     evals.extend(eval_col_ops_val.clone());
     evals.resize(evals.len().next_power_of_two(), G::Fr::zero());
@@ -885,7 +902,7 @@ pub fn hash_layer_verify<G: Curve>(
     for i in (0..cs.len()).rev() {
         bound_poly_var_bot::<G>(&mut evals, cs[i]);
     }
-    assert_eq!(evals.len(), 1);
+    ensure(evals.len() == 1)?;
     let claim_eval = evals[0];
     // let mut rs = cs;
     cs.extend(ops_rands);
@@ -907,13 +924,13 @@ pub fn hash_layer_verify<G: Curve>(
         &proof.proof_derefs,
         transcript,
     )?;
-    assert!(result);
+    ensure(result)?;
     let eval_val_list = &proof.evals_val;
-    assert_eq!(eval_val_list.len(), 3);
+    ensure(eval_val_list.len() == 3)?;
     for i in 0..3 {
-        assert_eq!(claims_dotp[i * 3], eval_row_ops_val[i]);
-        assert_eq!(claims_dotp[i * 3 + 1], eval_col_ops_val[i]);
-        assert_eq!(claims_dotp[i * 3 + 2], eval_val_list[i]);
+        ensure(claims_dotp[i * 3] == eval_row_ops_val[i])?;
+        ensure(claims_dotp[i * 3 + 1] == eval_col_ops_val[i])?;
+        ensure(claims_dotp[i * 3 + 2] == eval_val_list[i])?;
     }
 
     let (row_eval_addr_ops_list, row_eval_read_ts_list, row_eval_audit_ts_val) =
@@ -941,7 +958,7 @@ pub fn hash_layer_verify<G: Curve>(
     for i in (0..cs_ops.len()).rev() {
         bound_poly_var_bot::<G>(&mut evals_ops, cs_ops[i]);
     }
-    assert_eq!(evals_ops.len(), 1);
+    ensure(evals_ops.len() == 1)?;
     let claim_eval_ops = evals_ops[0];
     // let mut rs_ops = cs_ops;
     cs_ops.extend(ops_rands);
@@ -962,7 +979,7 @@ pub fn hash_layer_verify<G: Curve>(
         &proof.proof_ops,
         transcript,
     )?;
-    assert!(result);
+    ensure(result)?;
     let mut evals_mem = vec![row_eval_audit_ts_val, col_eval_audit_ts_val];
     transcript.append_message(b"claim_evals_mem", &to_bytes!(evals_mem)?);
     let mut cs_mem = (0..log2(evals_mem.len()))
@@ -976,7 +993,7 @@ pub fn hash_layer_verify<G: Curve>(
     for i in (0..cs_mem.len()).rev() {
         bound_poly_var_bot::<G>(&mut evals_mem, cs_mem[i]);
     }
-    assert_eq!(evals_mem.len(), 1);
+    ensure(evals_mem.len() == 1)?;
     let claim_eval_mem = evals_mem[0];
     // let mut rs_mem = cs_mem;
     cs_mem.extend(mem_rands);
@@ -999,7 +1016,7 @@ pub fn hash_layer_verify<G: Curve>(
         &proof.proof_mem,
         transcript,
     )?;
-    assert!(result);
+    ensure(result)?;
     let (row_eval_addr_ops_list, row_eval_read_ts_list, row_eval_audit_ts_val) = &proof.evals_row;
     let result = behind_verify_for_timestamp::<G>(
         rands,
@@ -1012,7 +1029,7 @@ pub fn hash_layer_verify<G: Curve>(
         gamma,
     )
     .is_ok();
-    assert!(result);
+    ensure(result)?;
     let (col_eval_addr_ops_list, col_eval_read_ts_list, col_eval_audit_ts_val) = &proof.evals_col;
     let result = behind_verify_for_timestamp::<G>(
         rands,
@@ -1025,7 +1042,7 @@ pub fn hash_layer_verify<G: Curve>(
         gamma,
     )
     .is_ok();
-    assert!(result);
+    ensure(result)?;
     Ok(())
 }
 
@@ -1056,19 +1073,19 @@ where
     let eval_init_val = eval_eq_x_y::<G>(&r, &rands_mem);
     let hash_init_at_rand_mem =
         eval_init_addr * &gamma1 * &gamma1 + &(eval_init_val * &gamma1) - &gamma2;
-    assert_eq!(claim_init, hash_init_at_rand_mem);
+    ensure(claim_init == hash_init_at_rand_mem)?;
 
     // one address and one timestamp for every claim, or some claims would not be checked
-    assert_eq!(eval_addr_ops_list.len(), claim_read_list.len());
-    assert_eq!(eval_read_ts_list.len(), claim_read_list.len());
-    assert_eq!(claim_read_list.len(), claim_write_list.len());
+    ensure(eval_addr_ops_list.len() == claim_read_list.len())?;
+    ensure(eval_read_ts_list.len() == claim_read_list.len())?;
+    ensure(claim_read_list.len() == claim_write_list.len())?;
 
     for i in 0..eval_addr_ops_list.len() {
         let hash_read_at_rand_ops = eval_addr_ops_list[i] * &gamma1 * &gamma1
             + &(eval_ops_val[i] * &gamma1)
             + &eval_read_ts_list[i]
             - &gamma2;
-        assert_eq!(claim_read_list[i], hash_read_at_rand_ops);
+        ensure(claim_read_list[i] == hash_read_at_rand_ops)?;
     }
 
     for i in 0..eval_addr_ops_list.len() {
@@ -1076,7 +1093,7 @@ where
             + &(eval_ops_val[i] * &gamma1)
             + &(eval_read_ts_list[i] + &G::Fr::one())
             - &gamma2;
-        assert_eq!(claim_write_list[i], hash_write_at_rand_ops);
+        ensure(claim_write_list[i] == hash_write_at_rand_ops)?;
     }
 
     let eval_audit_addr = eval_init_addr;
@@ -1084,7 +1101,7 @@ where
     let hash_audit_at_rand_mem =
         eval_audit_addr * &gamma1 * &gamma1 + &(eval_audit_val * &gamma1) + eval_audit_ts_val
             - &gamma2;
-    assert_eq!(cliam_audit, hash_audit_at_rand_mem);
+    ensure(cliam_audit == hash_audit_at_rand_mem)?;
 
     Ok(true)
 }
-- 
2.43.0


From 36d6899c89f638b95a571d9c27c241caeeec48b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:39 +0000
Subject: [PATCH 21/26] fix: check the number of public inputs in the Spartan
 and PLONK verifiers

Too many of them aborted the caller, and Spartan took trailing inputs that the
instance does not have.
---
 plonk/src/lib.rs      |  6 +++++-
 spartan/src/verify.rs | 11 +++++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/plonk/src/lib.rs b/plonk/src/lib.rs
index 91d483a..d9c3ded 100644
--- a/plonk/src/lib.rs
+++ b/plonk/src/lib.rs
@@ -18,7 +18,7 @@ use alloc::collections::BTreeMap as Map;
 use std::collections::HashMap as Map;
 
 use ark_ff::{to_bytes, FftField as Field};
-use ark_poly::univariate::DensePolynomial;
+use ark_poly::{univariate::DensePolynomial, EvaluationDomain};
 use ark_poly_commit::{Evaluations, LabeledCommitment, PCUniversalParams, PolynomialCommitment};
 
 use ark_std::{marker::PhantomData, string::ToString, vec, vec::Vec};
@@ -216,6 +216,10 @@ impl<F: Field, D: Digest, PC: PolynomialCommitment<F, DensePolynomial<F>>> Plonk
         {
             return Ok(false);
         }
+        // there is at most one public input per gate.
+        if public_inputs.len() > vk.info.domain_n.size() {
+            return Ok(false);
+        }
 
         let vs = AHPForPLONK::verifier_init(&vk.info)?;
         let mut fs_rng =
diff --git a/spartan/src/verify.rs b/spartan/src/verify.rs
index 1ab0aee..109913d 100644
--- a/spartan/src/verify.rs
+++ b/spartan/src/verify.rs
@@ -45,6 +45,9 @@ pub fn verify_nizk_proof<G: Curve>(
 
 
     let (rx, ry) = &proof.r;
+    let t = cmp::max(r1cs.num_aux, r1cs.num_inputs).next_power_of_two();
+    ensure(rx.len() == log2(r1cs.num_constraints) as usize)?;
+    ensure(ry.len() == log2(t) as usize + 1)?;
     let eval_a_r = evaluate_mle::<G>(&r1cs.a_matrix, rx, ry);
     let eval_b_r = evaluate_mle::<G>(&r1cs.b_matrix, rx, ry);
     let eval_c_r = evaluate_mle::<G>(&r1cs.c_matrix, rx, ry);
@@ -121,6 +124,9 @@ pub fn r1cs_satisfied_verify<G: Curve>(
 ) -> Result<(bool, Vec<G::Fr>, Vec<G::Fr>), SynthesisError> {
     let (eval_a_r, eval_b_r, eval_c_r) = matrix_evals;
 
+    // the first input is the constant one.
+    ensure(inputs.len() + 1 == r1cs.num_inputs)?;
+
     let t = cmp::max(r1cs.num_aux, r1cs.num_inputs).next_power_of_two();
     let (num_rounds_x, num_rounds_y) = (log2(r1cs.num_constraints) as usize, log2(t) as usize + 1);
     let mut public_inputs = vec![G::Fr::one()];
@@ -938,6 +944,11 @@ pub fn hash_layer_verify<G: Curve>(
     let (col_eval_addr_ops_list, col_eval_read_ts_list, col_eval_audit_ts_val) =
         proof.evals_col.clone();
 
+    ensure(row_eval_addr_ops_list.len() == 3)?;
+    ensure(row_eval_read_ts_list.len() == 3)?;
+    ensure(col_eval_addr_ops_list.len() == 3)?;
+    ensure(col_eval_read_ts_list.len() == 3)?;
+
     let mut evals_ops: Vec<G::Fr> = Vec::new();
     evals_ops.extend(row_eval_addr_ops_list);
     evals_ops.extend(row_eval_read_ts_list);
-- 
2.43.0


From 3c6a69a5a09edd97745f4297259a38cadf9c63b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:57 +0000
Subject: [PATCH 22/26] fix: place the inputs of every Hyrax instance where the
 circuit has them

The verifier padded the inputs of an instance, and the prover its witnesses, to
the next power of two of their own number instead of the size of the circuit's
input layer. With more witnesses than inputs the inputs of the second instance
were taken for inputs of the first, so honest proofs failed and the second
instance could be proved for other inputs than the stated ones.
---
 hyrax/src/hyrax_proof.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hyrax/src/hyrax_proof.rs b/hyrax/src/hyrax_proof.rs
index 3c89100..5550b14 100644
--- a/hyrax/src/hyrax_proof.rs
+++ b/hyrax/src/hyrax_proof.rs
@@ -53,12 +53,13 @@ impl<G: Curve> HyraxProof<G> {
         assert_eq!(n.next_power_of_two(), n);
         assert!(n > 0);
         //1. PC.Commit(pp, ~w)
+        let input_size = 2usize.pow(circuit.layers[0].bit_size as u32 - 1);
         let mut witness_vec = Vec::new();
         for i in 0..n {
             let witness = witnesses[i].clone();
             witness_vec.extend(witness);
             let wl = witnesses[i].len();
-            witness_vec.extend(vec![G::Fr::zero(); wl.next_power_of_two() - wl]);
+            witness_vec.extend(vec![G::Fr::zero(); input_size - wl]);
         }
         let (comm_witness, witness_blind) = packing_poly_commit::<G, R>(
             &params.pc_params.gen_n.generators,
@@ -227,6 +228,7 @@ impl<G: Curve> HyraxProof<G> {
         let n = outputs.len();
         assert_eq!(n.next_power_of_two(), n);
         assert!(n > 0);
+        let input_size = 2usize.pow(circuit.layers[0].bit_size as u32 - 1);
 
         for i in 0..n {
             transcript.append_message(b"input_i", &to_bytes!(inputs[i]).unwrap());
@@ -291,7 +293,7 @@ impl<G: Curve> HyraxProof<G> {
             let input = inputs[i].clone();
             input_vec.extend(input);
             let al = inputs[i].len();
-            input_vec.extend(vec![G::Fr::zero(); al.next_power_of_two() - al]);
+            input_vec.extend(vec![G::Fr::zero(); input_size - al]);
         }
 
         let mut rl_q_vec = q_aside_vec.clone();
-- 
2.43.0


From 45a9cab50d1f04c6a10bad74bda9f15a7bfb1ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:57 +0000
Subject: [PATCH 23/26] fix: reject malformed proofs in the Libra and Hyrax
 verifiers instead of aborting

Lists of the wrong length and checks that fail aborted the caller, the first by
indexing out of bounds, the second by assertions.
---
 hyrax/src/commitment.rs          |  9 ++++++
 hyrax/src/hyrax_proof.rs         | 28 ++++++++++++----
 hyrax/src/zk_sumcheck_proof.rs   | 14 +++++++-
 libra/src/commitment.rs          |  9 ++++++
 libra/src/libra_linear_gkr.rs    | 42 ++++++++++++++++--------
 libra/src/libra_zk_linear_gkr.rs | 55 +++++++++++++++++++++++++-------
 libra/src/sumcheck.rs            |  3 ++
 7 files changed, 129 insertions(+), 31 deletions(-)

diff --git a/hyrax/src/commitment.rs b/hyrax/src/commitment.rs
index 6241114..660cc02 100644
--- a/hyrax/src/commitment.rs
+++ b/hyrax/src/commitment.rs
@@ -177,6 +177,9 @@ impl<G: Curve> ProductProof<G> {
         comm_prod: G::Affine,
         transcript: &mut Transcript,
     ) -> bool {
+        if self.z.len() != 5 {
+            return false;
+        }
         let z1 = self.z[0];
         let z2 = self.z[1];
         let z3 = self.z[2];
@@ -471,6 +474,12 @@ impl<G: Curve> LogDotProductProof<G> {
         let size = ry.len();
         let l_eq_ry = eval_eq::<G>(&(ry[0..size / 2].to_vec()));
         let r_eq_ry = eval_eq::<G>(&ry[size / 2..size].to_vec());
+        let rounds = log2(r_eq_ry.len()) as usize;
+        if self.bullet_reduce_proof.l_vec.len() != rounds
+            || self.bullet_reduce_proof.r_vec.len() != rounds
+        {
+            return false;
+        }
         let comm_lz = poly_commit_vec::<G>(
             &comms_witness,
             &l_eq_ry.clone(),
diff --git a/hyrax/src/hyrax_proof.rs b/hyrax/src/hyrax_proof.rs
index 5550b14..695294c 100644
--- a/hyrax/src/hyrax_proof.rs
+++ b/hyrax/src/hyrax_proof.rs
@@ -226,9 +226,17 @@ impl<G: Curve> HyraxProof<G> {
         transcript.append_message(b"param_to_hash", &to_bytes!(param_to_hash).unwrap());   
 
         let n = outputs.len();
-        assert_eq!(n.next_power_of_two(), n);
-        assert!(n > 0);
+        if n < 2 || !n.is_power_of_two() || inputs.len() != n {
+            return false;
+        }
         let input_size = 2usize.pow(circuit.layers[0].bit_size as u32 - 1);
+        let output_size = circuit.layers[circuit.depth - 1].gates_count;
+        if inputs.iter().any(|input| input.len() > input_size)
+            || outputs.iter().any(|output| output.len() != output_size)
+            || self.proofs.len() != circuit.depth - 1
+        {
+            return false;
+        }
 
         for i in 0..n {
             transcript.append_message(b"input_i", &to_bytes!(inputs[i]).unwrap());
@@ -305,7 +313,9 @@ impl<G: Curve> HyraxProof<G> {
             self.comm_y0,
             &mut transcript,
         );
-        assert!(rs);
+        if !rs {
+            return false;
+        }
 
         let eval_input_tau = eval_value::<G>(&input_vec, &rl_q_vec);
         let comm_input = poly_commit_vec::<G>(
@@ -324,7 +334,9 @@ impl<G: Curve> HyraxProof<G> {
             comm_eval_z,
             &mut transcript,
         );
-        assert!(result);
+        if !result {
+            return false;
+        }
 
         let mut rr_q_vec = q_aside_vec.clone();
         rr_q_vec.extend(qr_vec[1..qr_vec.len()].to_vec());
@@ -335,7 +347,9 @@ impl<G: Curve> HyraxProof<G> {
             self.comm_y1,
             &mut transcript,
         );
-        assert!(rs);
+        if !rs {
+            return false;
+        }
 
         let eval_input_tau = eval_value::<G>(&input_vec, &rr_q_vec);
         let comm_input = poly_commit_vec::<G>(
@@ -354,7 +368,9 @@ impl<G: Curve> HyraxProof<G> {
             comm_eval_z,
             &mut transcript,
         );
-        assert!(result);
+        if !result {
+            return false;
+        }
 
         true
     }
diff --git a/hyrax/src/zk_sumcheck_proof.rs b/hyrax/src/zk_sumcheck_proof.rs
index dfc80fc..e96ecfe 100644
--- a/hyrax/src/zk_sumcheck_proof.rs
+++ b/hyrax/src/zk_sumcheck_proof.rs
@@ -638,6 +638,16 @@ impl<G: Curve> ZkSumcheckProof<G> {
         let log_ng = log2(ng) as usize;
         let log_n = log2(n) as usize;
 
+        let rounds = log_n + 2 * log_ng;
+        if self.comm_polys.len() != rounds
+            || self.comm_evals.len() != rounds
+            || self.comm_deltas.len() != rounds
+            || self.z_delta_vec.len() != rounds
+            || self.z_vec.len() != 4 * log_n + 6 * log_ng
+        {
+            return None;
+        }
+
         let mut rs = Vec::new();
         let mut r0 = Vec::new();
         let mut r1 = Vec::new();
@@ -687,7 +697,9 @@ impl<G: Curve> ZkSumcheckProof<G> {
             self.comm_z,
             transcript,
         );
-        assert!(result);
+        if !result {
+            return false;
+        }
 
         for i in 0..self.comm_deltas.len() {
             transcript.append_message(b"comm_delta", &to_bytes!(self.comm_deltas[i]).unwrap());
diff --git a/libra/src/commitment.rs b/libra/src/commitment.rs
index b1bdb5d..4574010 100644
--- a/libra/src/commitment.rs
+++ b/libra/src/commitment.rs
@@ -176,6 +176,9 @@ impl<G: Curve> ProductProof<G> {
         comm_prod: G::Affine,
         transcript: &mut Transcript,
     ) -> bool {
+        if self.z.len() != 5 {
+            return false;
+        }
         let z1 = self.z[0];
         let z2 = self.z[1];
         let z3 = self.z[2];
@@ -469,6 +472,12 @@ impl<G: Curve> LogDotProductProof<G> {
         let size = ry.len();
         let l_eq_ry = eval_eq::<G>(&(ry[0..size / 2].to_vec()));
         let r_eq_ry = eval_eq::<G>(&ry[size / 2..size].to_vec());
+        let rounds = log2(r_eq_ry.len()) as usize;
+        if self.bullet_reduce_proof.l_vec.len() != rounds
+            || self.bullet_reduce_proof.r_vec.len() != rounds
+        {
+            return false;
+        }
         let comm_lz = poly_commit_vec::<G>(
             &comms_witness,
             &l_eq_ry.clone(),
diff --git a/libra/src/libra_linear_gkr.rs b/libra/src/libra_linear_gkr.rs
index a9b74c2..6578aa6 100644
--- a/libra/src/libra_linear_gkr.rs
+++ b/libra/src/libra_linear_gkr.rs
@@ -116,8 +116,13 @@ impl<G: Curve> LinearGKRProof<G> {
     pub fn verify(&self, circuit: &Circuit, outputs: &Vec<G::Fr>, inputs: &Vec<G::Fr>, circuit_to_hash: G::Fr) -> bool {
         let mut transcript = Transcript::new(b"libra - linear gkr");
         transcript.append_message(b"circuit_to_hash", &to_bytes!(circuit_to_hash).unwrap());
-        
-        
+
+        if inputs.len() > 2usize.pow(circuit.layers[0].bit_size as u32)
+            || outputs.len() != circuit.layers[circuit.depth - 1].gates_count
+        {
+            return false;
+        }
+
         transcript.append_message(b"input", &to_bytes!(inputs).unwrap());
         transcript.append_message(b"output", &to_bytes!(outputs).unwrap());
         let mut alpha = G::Fr::one();
@@ -134,20 +139,28 @@ impl<G: Curve> LinearGKRProof<G> {
         let mut eval_rv_y = G::Fr::zero();
         let mut ru_vec = Vec::new();
         let mut rv_vec = Vec::new();
-        assert_eq!(circuit.depth - 1, self.proofs.len());
+        if circuit.depth - 1 != self.proofs.len() {
+            return false;
+        }
         for (d, lproof) in self.proofs.iter().enumerate() {
             let mut claim = alpha * &result_u + &(beta * &result_v);
             let (proof1, proof2) = (&lproof.proof_phase_one, &lproof.proof_phase_two);
             let bit_size = circuit.layers[circuit.depth - d - 2].bit_size;
+            if proof1.polys.len() != bit_size
+                || proof2.polys.len() != bit_size
+                || proof1.poly_value_at_r.len() != 4
+                || proof2.poly_value_at_r.len() != 3
+            {
+                return false;
+            }
             ru_vec = Vec::new();
             rv_vec = Vec::new();
             // let mut comm_claim = comm_claim;
             for i in 0..bit_size {
                 let poly = &proof1.polys[i];
-                assert_eq!(
-                    poly.evaluate(&G::Fr::zero()) + &poly.evaluate(&G::Fr::one()),
-                    claim
-                );
+                if poly.evaluate(&G::Fr::zero()) + &poly.evaluate(&G::Fr::one()) != claim {
+                    return false;
+                }
                 transcript.append_message(b"poly", &polynomial_to_bytes::<G>(&poly));
                 let mut buf = [0u8; 32];
                 transcript.challenge_bytes(b"challenge_nextround", &mut buf);
@@ -160,13 +173,14 @@ impl<G: Curve> LinearGKRProof<G> {
             let claim_final = eval_ru_final[0] * &eval_ru_final[1]
                 + &(eval_ru_final[0] * &eval_ru_final[2])
                 + &eval_ru_final[3];
-            assert_eq!(claim, claim_final);
+            if claim != claim_final {
+                return false;
+            }
             for i in 0..bit_size {
                 let poly = &proof2.polys[i];
-                assert_eq!(
-                    poly.evaluate(&G::Fr::zero()) + &poly.evaluate(&G::Fr::one()),
-                    claim
-                );
+                if poly.evaluate(&G::Fr::zero()) + &poly.evaluate(&G::Fr::one()) != claim {
+                    return false;
+                }
                 transcript.append_message(b"poly", &polynomial_to_bytes::<G>(&poly));
                 let mut buf = [0u8; 32];
                 transcript.challenge_bytes(b"challenge_nextround", &mut buf);
@@ -179,7 +193,9 @@ impl<G: Curve> LinearGKRProof<G> {
             let claim_final = eval_rv_final[1] * &eval_rv_final[0] * &eval_ru_final[0]
                 + &(eval_rv_final[2] * &eval_ru_final[0])
                 + &(eval_rv_final[2] * &eval_rv_final[0]);
-            assert_eq!(claim, claim_final);
+            if claim != claim_final {
+                return false;
+            }
             // The claimed gate evaluations have to be those of the circuit.
             let (add_gate_eval, mult_gate_eval) = circuit.layers[circuit.depth - d - 1]
                 .eval_operators::<G>(&gu_vec, &gv_vec, &ru_vec, &rv_vec, alpha, beta);
diff --git a/libra/src/libra_zk_linear_gkr.rs b/libra/src/libra_zk_linear_gkr.rs
index bfa0653..1dd7916 100644
--- a/libra/src/libra_zk_linear_gkr.rs
+++ b/libra/src/libra_zk_linear_gkr.rs
@@ -280,6 +280,13 @@ impl<G: Curve> ZKLinearGKRProof<G> {
         let mut transcript = Transcript::new(b"libra - zk linear gkr");
         transcript.append_message(b"circuit_to_hash", &to_bytes!(circuit_to_hash).unwrap());
         transcript.append_message(b"params_to_hash", &to_bytes!(params_to_hash).unwrap());
+
+        let input_size = 2usize.pow(circuit.layers[0].bit_size as u32 - 1);
+        if inputs.len() > input_size
+            || outputs.len() != circuit.layers[circuit.depth - 1].gates_count
+        {
+            return false;
+        }
         
         transcript.append_message(b"input", &to_bytes!(inputs).unwrap());
         transcript.append_message(b"output", &to_bytes!(outputs).unwrap());
@@ -308,10 +315,21 @@ impl<G: Curve> ZKLinearGKRProof<G> {
         let mut rv_vec = Vec::new();
         let mut gu_vec = gu.clone();
         let mut gv_vec = gu.clone();
-        assert_eq!(circuit.depth - 1, self.proofs.len());
+        if circuit.depth - 1 != self.proofs.len() {
+            return false;
+        }
         for (d, lproof) in self.proofs.iter().enumerate() {
             let (proof1, proof2) = (&lproof.proof_phase_one, &lproof.proof_phase_two);
             let bit_size = circuit.layers[circuit.depth - d - 2].bit_size;
+            if proof1.comm_polys.len() != bit_size
+                || proof1.comm_evals.len() != bit_size
+                || proof1.proofs.len() != bit_size
+                || proof2.comm_polys.len() != bit_size
+                || proof2.comm_evals.len() != bit_size
+                || proof2.proofs.len() != bit_size
+            {
+                return false;
+            }
             ru_vec = Vec::new();
             rv_vec = Vec::new();
             // let mut comm_claim = comm_claim;
@@ -333,7 +351,9 @@ impl<G: Curve> ZKLinearGKRProof<G> {
                     3,
                     &mut transcript,
                 );
-                assert!(result);
+                if !result {
+                    return false;
+                }
                 ru_vec.push(r_i);
                 comm_claim = comm_eval;
             }
@@ -357,7 +377,9 @@ impl<G: Curve> ZKLinearGKRProof<G> {
                     3,
                     &mut transcript,
                 );
-                assert!(result);
+                if !result {
+                    return false;
+                }
                 rv_vec.push(r_i);
                 comm_claim = comm_eval;
             }
@@ -370,7 +392,9 @@ impl<G: Curve> ZKLinearGKRProof<G> {
                 lproof.comm_z,
                 &mut transcript,
             );
-            assert!(result);
+            if !result {
+                return false;
+            }
 
             let (add_gate_eval, mult_gate_eval) = circuit.layers[circuit.depth - d - 1]
                 .eval_operators::<G>(&gu_vec, &gv_vec, &ru_vec, &rv_vec, alpha, beta);
@@ -383,7 +407,9 @@ impl<G: Curve> ZKLinearGKRProof<G> {
                 comm_claim,
                 &mut transcript,
             );
-            assert!(result);
+            if !result {
+                return false;
+            }
 
             gu_vec = ru_vec.clone();
             gv_vec = rv_vec.clone();
@@ -405,8 +431,7 @@ impl<G: Curve> ZKLinearGKRProof<G> {
         let mut inputs = inputs.clone();
         inputs.extend(vec![
             G::Fr::zero();
-            2usize.pow(circuit.layers[0].bit_size as u32 - 1)
-                - inputs.len()
+            input_size - inputs.len()
         ]);
 
         let rs = self.prod_proof0.reduce_verifier(
@@ -416,7 +441,9 @@ impl<G: Curve> ZKLinearGKRProof<G> {
             self.comm_y0,
             &mut transcript,
         );
-        assert!(rs);
+        if !rs {
+            return false;
+        }
 
         let eval_input_tau = eval_value::<G>(&inputs, &ru_vec[1..].to_vec());
         let comm_input = poly_commit_vec::<G>(
@@ -435,7 +462,9 @@ impl<G: Curve> ZKLinearGKRProof<G> {
             comm_eval_z,
             &mut transcript,
         );
-        assert!(result);
+        if !result {
+            return false;
+        }
         let rs = self.prod_proof1.reduce_verifier(
             &params.pc_params,
             &rv_vec[1..].to_vec(),
@@ -443,7 +472,9 @@ impl<G: Curve> ZKLinearGKRProof<G> {
             self.comm_y1,
             &mut transcript,
         );
-        assert!(rs);
+        if !rs {
+            return false;
+        }
 
         let eval_input_tau = eval_value::<G>(&inputs, &rv_vec[1..].to_vec());
         let comm_input = poly_commit_vec::<G>(
@@ -462,7 +493,9 @@ impl<G: Curve> ZKLinearGKRProof<G> {
             comm_eval_z,
             &mut transcript,
         );
-        assert!(result);
+        if !result {
+            return false;
+        }
 
         true
     }
diff --git a/libra/src/sumcheck.rs b/libra/src/sumcheck.rs
index 77c9029..378c326 100644
--- a/libra/src/sumcheck.rs
+++ b/libra/src/sumcheck.rs
@@ -531,6 +531,9 @@ impl<G: Curve> SumCheckEvalProof<G> {
         bit_size: usize,
         transcript: &mut Transcript,
     ) -> bool {
+        if self.z.len() != bit_size {
+            return false;
+        }
         let w = (0..2)
             .map(|_i| {
                 let mut buf = [0u8; 32];
-- 
2.43.0


From d96e65e8fd739304377a376ffedd0752c402f306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:59 +0000
Subject: [PATCH 24/26] fix: points of Curve25519 are written as they are read

---
 curve25519/src/group.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/curve25519/src/group.rs b/curve25519/src/group.rs
index 59707c0..271fd6f 100644
--- a/curve25519/src/group.rs
+++ b/curve25519/src/group.rs
@@ -293,7 +293,8 @@ impl Zeroize for Curve25519Point {
 impl CanonicalSerialize for Curve25519Point {
     #[inline]
     fn serialize<W: io::Write>(&self, writer: W) -> Result<(), SerializationError> {
-        self.0.compress().as_bytes().serialize(writer)
+        self.0.compress().as_bytes().write(writer)?;
+        Ok(())
     }
 
     #[inline]
@@ -303,7 +304,8 @@ impl CanonicalSerialize for Curve25519Point {
 
     #[inline]
     fn serialize_uncompressed<W: io::Write>(&self, writer: W) -> Result<(), SerializationError> {
-        self.0.compress().as_bytes().serialize(writer)
+        self.0.compress().as_bytes().write(writer)?;
+        Ok(())
     }
 
     #[inline]
-- 
2.43.0


From 6573d2ee4b536e866f0c78aa7bfe3659d6cf9d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:59 +0000
Subject: [PATCH 25/26] fix: reject unknown tags of variable indices

---
 r1cs/src/lib.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/r1cs/src/lib.rs b/r1cs/src/lib.rs
index 89ce6f5..6343609 100644
--- a/r1cs/src/lib.rs
+++ b/r1cs/src/lib.rs
@@ -137,7 +137,8 @@ impl CanonicalDeserialize for Index {
         let u = usize::deserialize(&mut reader)?;
         match t {
             0u8 => Ok(Index::Input(u)),
-            _ => Ok(Index::Aux(u)),
+            1u8 => Ok(Index::Aux(u)),
+            _ => Err(SerializationError::InvalidData),
         }
     }
 
@@ -147,7 +148,8 @@ impl CanonicalDeserialize for Index {
         let u = usize::deserialize(&mut reader)?;
         match t {
             0u8 => Ok(Index::Input(u)),
-            _ => Ok(Index::Aux(u)),
+            1u8 => Ok(Index::Aux(u)),
+            _ => Err(SerializationError::InvalidData),
         }
     }
 
@@ -157,7 +159,8 @@ impl CanonicalDeserialize for Index {
         let u = usize::deserialize(&mut reader)?;
         match t {
             0u8 => Ok(Index::Input(u)),
-            _ => Ok(Index::Aux(u)),
+            1u8 => Ok(Index::Aux(u)),
+            _ => Err(SerializationError::InvalidData),
         }
     }
 }
-- 
2.43.0


From 4afce6169952834f573e1d1c4df3a4f254830b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:45 +0000
Subject: [PATCH 26/26] fix: reject openings with points that repeat or lack a
 value

---
 asvc/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/asvc/src/lib.rs b/asvc/src/lib.rs
index f57fb0d..45cec81 100644
--- a/asvc/src/lib.rs
+++ b/asvc/src/lib.rs
@@ -235,6 +235,11 @@ pub fn verify_pos<E>(
 where
     E: PairingEngine,
 {
+    // every value belongs to a point
+    if points.len() != point_values.len() {
+        return Ok(false);
+    }
+
     // A_I(x) = ∏(x - ω^i)
     let mut a_polynomial = DensePolynomial::from_coefficients_vec(vec![E::Fr::one()]);
     for point in points.iter() {
@@ -257,6 +262,10 @@ where
         let mut l_polynomial = a_polynomial.div(&tpoly);
         // A_I'(ω^i)
         let b_aside = l_polynomial.evaluate(&omega.pow(&[*point as u64]));
+        if b_aside.is_zero() {
+            // the points are not distinct
+            return Ok(false);
+        }
 
         // v_i/A_I'(ω^i)
         let bpoly = DensePolynomial::from_coefficients_vec(vec![value.div(&b_aside)]);
-- 
2.43.0

