"""What each verifier has to bind and check.

fs: groups of messages in protocol order with the number of challenges that must be drawn
after the group and before the next one; "~leaf": absorbed in part of the iterations only.
fs_exempt: values that are not absorbed (final responses, derived keys).
eqs: the equations that guard acceptance: I(leaves that must enter, {group: challenges}).
accept_may: leaves that enter on some iterations or optionally; accept_exempt: leaves the
scheme's verifier does not use, each group explained in DESIGN.md.
"""


def I(labels, ch, may=""):
    return (labels.split(), ch)


def EQ(name, *inst, may=""):
    return {"name": name, "inst": [{"labels": i[0], "ch": i[1], "may": may.split()} for i in inst]}


SPEC = {}

SPEC["groth16_verify"] = dict(
    root="root_groth16_verify",
    fs=[
    ],
    fs_exempt="vk.alpha_g1 vk.beta_g2 vk.gamma_g2 vk.delta_g2 vk.gamma_abc_g1[*] proof.a proof.b proof.c public_inputs[*]",
    accept_may="",
    accept_exempt="",
    eqs=[
        EQ("number of public inputs",
           I("public_inputs.#len vk.gamma_abc_g1.#len", {}),
           ),
        EQ("verify_proof ",
           I("proof.a proof.b proof.c public_inputs[*] vk.alpha_g1 vk.beta_g2 vk.delta_g2 vk.gamma_abc_g1[0] vk.gamma_abc_g1[1..] vk.gamma_g2", {}),
           ),
    ],
)

SPEC["bulletproofs_verify"] = dict(
    root="root_bulletproofs_verify",
    fs=[
        (2, "gens.N gens.g gens.g_vec_N[*] gens.h gens.h_vec_N[*] gens.k gens.n gens.n_w gens.u proof.A_I proof.A_O proof.A_W proof.S public_inputs[*] r1cs.CL[*][*] "
            "r1cs.CO[*][*] r1cs.CR[*][*]"),
        (1, "proof.T_10 proof.T_2 proof.T_3 proof.T_5 proof.T_6 proof.T_7 proof.T_8 proof.T_9"),
        (1, "proof.l_x[*] proof.mu proof.r_x[*] proof.t_x proof.tau_x"),
        (1, "proof.IPP.L_vec[*] proof.IPP.R_vec[*] proof.IPP_P"),
    ],
    # in may only:  r1cs.CL_T[*].0.0 r1cs.CL_T[*].0.1 r1cs.CL_T[*].1 r1cs.CR_T[*].0.0 r1cs.CR_T[*].0.1 r1cs.CR_T[*].1 r1cs.CO_T[*].0.0 r1cs.CO_T[*].0.1 r1cs.CO_T[*].1
    fs_exempt="proof.IPP.a proof.IPP.b r1cs.CL_T[*].0.0 r1cs.CL_T[*].0.1 r1cs.CL_T[*].1 r1cs.CR_T[*].0.0 r1cs.CR_T[*].0.1 r1cs.CR_T[*].1 r1cs.CO_T[*].0.0 "
              "r1cs.CO_T[*].0.1 r1cs.CO_T[*].1",
    accept_may="",
    accept_exempt="gens.n_w r1cs.CL[*][*] r1cs.CR[*][*] r1cs.CO[*][*] r1cs.CL_T[*].0.0 r1cs.CL_T[*].0.1 r1cs.CR_T[*].0.0 r1cs.CR_T[*].0.1 r1cs.CO_T[*].0.0 "
              "r1cs.CO_T[*].0.1",
    eqs=[
        EQ("number of public inputs",
           I("public_inputs.#len gens.k", {}),
           ),
        EQ("verify_proof ",
           I("gens.N proof.l_x.#len", {}),
           ),
        EQ("verify_proof ",
           I("gens.N proof.r_x.#len", {}),
           ),
        EQ("verify_proof ",
           I("gens.g_vec_N gens.h_vec_N gens.u proof.IPP_P proof.l_x[*] proof.r_x[*] proof.t_x", {2: 1}),
           ),
        EQ("verify verify",
           I("gens.g_vec_N.#len proof.IPP.L_vec.#len", {}),
           ),
        EQ("verify verify",
           I("gens.g_vec_N.#len proof.IPP.R_vec.#len", {}),
           ),
        EQ("verify verify",
           I("gens.g_vec_N gens.h_vec_N gens.u proof.IPP.L_vec proof.IPP.R_vec proof.IPP.a proof.IPP.b proof.IPP_P", {2: 1, 3: 1}),
           ),
        EQ("verify_proof ",
           I("gens.g gens.h proof.T_10 proof.T_2 proof.T_3 proof.T_5 proof.T_6 proof.T_7 proof.T_8 proof.T_9 proof.t_x proof.tau_x public_inputs[*] r1cs.CL_T[*].1 "
             "r1cs.CO_T[*].1 r1cs.CR_T[*].1", {0: 1, 1: 1}),
           may="gens.N"),
        EQ("verify_proof ",
           I("gens.g_vec_N gens.h gens.h_vec_N[*] proof.A_I proof.A_O proof.A_W proof.S proof.l_x[*] proof.mu proof.r_x[*]", {0: 1, 1: 1}),
           may="gens.N r1cs.CL_T[*].1 r1cs.CO_T[*].1 r1cs.CR_T[*].1"),
    ],
)

SPEC["marlin_verify"] = dict(
    len_exempt="proof.evaluations",
    root="root_marlin_verify",
    lits={'proof.commitments': 3},
    fs=[
        (4, "ivk.index_comms[*].comm.0 ivk.index_comms[*].shifted_comm.0 ivk.index_info.num_constraints ivk.index_info.num_non_zeros ivk.index_info.num_variables "
            "ivk.verifier_key.beta_h ivk.verifier_key.g ivk.verifier_key.gamma_g ivk.verifier_key.h ivk.verifier_key.supported_degree proof.commitments[0][*].comm.0 "
            "proof.commitments[0][*].shifted_comm.0 public_inputs[*]"),
        (1, "proof.commitments[1][*].comm.0 proof.commitments[1][*].shifted_comm.0"),
        (1, "proof.commitments[2][*].comm.0 proof.commitments[2][*].shifted_comm.0"),
        (1, "proof.evaluations[*]"),
    ],
    fs_exempt="proof.opening_proofs[*].w proof.opening_proofs[*].rand_v",
    accept_may="ivk.verifier_key.gamma_g ivk.verifier_key.supported_degree",
    accept_exempt="",
    eqs=[
        EQ("verifier_equality_check verifier_equality_check",
           I("ivk.index_info.num_constraints proof.evaluations[*] public_inputs[*]", {0: 4, 1: 1}),
           ),
        EQ("verifier_equality_check verifier_equality_check",
           I("ivk.index_info.num_constraints ivk.index_info.num_non_zeros proof.evaluations[*]", {0: 4, 1: 1, 2: 1}),
           ),
        EQ("batch_check batch_check",
           I("proof.opening_proofs.#len", {}),
           ),
        EQ("accumulate_commitments_and_values batch_check/check/accumulate_commitments_and_values",
           I("ivk.index_comms[*] proof.commitments[0][*] proof.commitments[1][*] proof.commitments[2][*]", {}),
           ),
        EQ("check batch_check/check/check",
           I("ivk.index_comms[*] ivk.verifier_key.beta_h ivk.verifier_key.g ivk.verifier_key.h proof.commitments[0][*] proof.commitments[1][*] "
             "proof.commitments[2][*] proof.evaluations[*] proof.opening_proofs[*].w", {2: 1, 3: 1}),
           may="ivk.index_info.num_constraints ivk.index_info.num_non_zeros ivk.verifier_key.gamma_g ivk.verifier_key.supported_degree proof.opening_proofs[*].rand_v"),
    ],
)


SPEC["plonk_verify"] = dict(
    len_exempt="proof.evaluations",
    root="root_plonk_verify",
    lits={'proof.commitments': 3, 'vk.info.ks': 4},
    fs=[
        (2, "proof.commitments[0][*] public_inputs[*]"),
        (1, "proof.commitments[1][*]"),
        (1, "proof.commitments[2][*]"),
        (1, "proof.evaluations[*]"),
        (1, "proof.pc_proof"),      # the factors with which the openings are batched
    ],
    fs_exempt="vk.info.n vk.info.ks[0] vk.info.ks[1] vk.info.ks[2] vk.info.ks[3] vk.info.domain_n vk.comms[*] vk.labels[*] vk.rk",
    accept_may="",
    accept_exempt="",
    eqs=[
        EQ("verifier_equality_check verifier_equality_check",
           I("proof.evaluations[*] public_inputs public_inputs[*] vk.info.domain_n", {0: 2, 1: 1, 2: 1}),
           ),
        EQ("verify ",
           I("proof.commitments[0][*] proof.commitments[1][*] proof.commitments[2][*] proof.evaluations[*] proof.pc_proof vk.comms[*] vk.info.domain_n vk.info.ks[0] "
             "vk.info.ks[1] vk.info.ks[2] vk.info.ks[3] vk.info.n vk.labels[*] vk.rk", {0: 2, 1: 1, 2: 1, 3: 1, 4: 1}),
           ),
    ],
)

SPEC["asvc_verify_pos"] = dict(
    root="root_asvc_verify_pos",
    fs=[
    ],
    fs_exempt="vrk.powers_of_g1[*] vrk.powers_of_g2[*] vrk.a commit.commit point_values[*] points[*] proof.w omega",
    accept_may="",
    accept_exempt="vrk.a",
    eqs=[
        EQ("verify_pos ",
           I("commit.commit omega point_values[*] points[*] proof.w vrk.powers_of_g1 vrk.powers_of_g2 vrk.powers_of_g2[0]", {}),
           ),
        EQ("verify_pos ",
           I("point_values.#len points.#len", {}),
           ),
    ],
)

SPEC["asvc_verify_upk"] = dict(
    root="root_asvc_verify_upk",
    fs=[
    ],
    fs_exempt="vrk.powers_of_g1[*] vrk.powers_of_g2[*] vrk.a point upk.ai upk.ui omega",
    accept_may="",
    accept_exempt="vrk.powers_of_g1[*] vrk.powers_of_g2[*]",
    eqs=[
        EQ("verify_upk ",
           I("omega point upk.ai vrk.a vrk.powers_of_g2[0] vrk.powers_of_g2[1]", {}),
           ),
        EQ("verify_upk ",
           I("omega point upk.ai upk.ui vrk.powers_of_g1[0] vrk.powers_of_g2[0] vrk.powers_of_g2[1]", {}),
           ),
    ],
)

SPEC["spartan_nizk_verify"] = dict(
    len_exempt="proof.r1cs_satisfied_proof.commit_witness",
    root="root_spartan_nizk_verify",
    lits={'proof.r1cs_satisfied_proof.knowledge_product_proof.product_proof.z': 5},
    fs=[
        (1, "proof.r1cs_satisfied_proof.commit_witness[*] public_inputs[*] vk.params.r1cs_satisfied_params.n "
            "vk.params.r1cs_satisfied_params.pc_params.gen_1.generators[*] vk.params.r1cs_satisfied_params.pc_params.gen_1.h "
            "vk.params.r1cs_satisfied_params.pc_params.gen_1.n vk.params.r1cs_satisfied_params.pc_params.gen_n.generators[*] "
            "vk.params.r1cs_satisfied_params.pc_params.gen_n.h vk.params.r1cs_satisfied_params.pc_params.gen_n.n vk.params.r1cs_satisfied_params.pc_params.n "
            "vk.params.r1cs_satisfied_params.sc_params.gen_1.generators[*] vk.params.r1cs_satisfied_params.sc_params.gen_1.h "
            "vk.params.r1cs_satisfied_params.sc_params.gen_1.n vk.params.r1cs_satisfied_params.sc_params.gen_3.generators[*] "
            "vk.params.r1cs_satisfied_params.sc_params.gen_3.h vk.params.r1cs_satisfied_params.sc_params.gen_3.n "
            "vk.params.r1cs_satisfied_params.sc_params.gen_4.generators[*] vk.params.r1cs_satisfied_params.sc_params.gen_4.h "
            "vk.params.r1cs_satisfied_params.sc_params.gen_4.n vk.r1cs.a_matrix[*][*].0 vk.r1cs.a_matrix[*][*].1 vk.r1cs.b_matrix[*][*].0 vk.r1cs.b_matrix[*][*].1 "
            "vk.r1cs.c_matrix[*][*].0 vk.r1cs.c_matrix[*][*].1 vk.r1cs.num_aux vk.r1cs.num_constraints vk.r1cs.num_inputs"),
        (1, "proof.r1cs_satisfied_proof.proof_one.comm_polys[*]"),
        (1, "proof.r1cs_satisfied_proof.proof_one.comm_evals[*]"),
        (1, "proof.r1cs_satisfied_proof.proof_one.proofs[*].d_commit proof.r1cs_satisfied_proof.proof_one.proofs[*].dot_cd_commit"),
        (1, "proof.r1cs_satisfied_proof.knowledge_product_commit.vc_commit proof.r1cs_satisfied_proof.knowledge_product_proof.knowledge_proof.t_commit"),
        (1, "proof.r1cs_satisfied_proof.knowledge_product_commit.prod_commit proof.r1cs_satisfied_proof.knowledge_product_commit.va_commit "
            "proof.r1cs_satisfied_proof.knowledge_product_commit.vb_commit proof.r1cs_satisfied_proof.knowledge_product_proof.product_proof.commit_alpha "
            "proof.r1cs_satisfied_proof.knowledge_product_proof.product_proof.commit_beta "
            "proof.r1cs_satisfied_proof.knowledge_product_proof.product_proof.commit_delta"),
        (4, "proof.r1cs_satisfied_proof.sc1_eq_proof.alpha"),
        (1, "proof.r1cs_satisfied_proof.proof_two.comm_polys[*]"),
        (1, "proof.r1cs_satisfied_proof.proof_two.comm_evals[*]"),
        (1, "proof.r1cs_satisfied_proof.proof_two.proofs[*].d_commit proof.r1cs_satisfied_proof.proof_two.proofs[*].dot_cd_commit"),
        (1, "proof.r1cs_satisfied_proof.commit_ry proof.r1cs_satisfied_proof.product_proof.inner_product_proof.l_vec[*] "
            "proof.r1cs_satisfied_proof.product_proof.inner_product_proof.r_vec[*]"),
        (1, "proof.r1cs_satisfied_proof.product_proof.beta proof.r1cs_satisfied_proof.product_proof.delta"),
        (1, "proof.r.0[*] proof.r.1[*] proof.r1cs_satisfied_proof.sc2_eq_proof.alpha"),
    ],
    fs_exempt="proof.r1cs_satisfied_proof.proof_one.proofs[*].z[*] proof.r1cs_satisfied_proof.proof_one.proofs[*].z_delta "
              "proof.r1cs_satisfied_proof.proof_one.proofs[*].z_beta proof.r1cs_satisfied_proof.proof_two.proofs[*].z[*] "
              "proof.r1cs_satisfied_proof.proof_two.proofs[*].z_delta proof.r1cs_satisfied_proof.proof_two.proofs[*].z_beta "
              "proof.r1cs_satisfied_proof.product_proof.z1 proof.r1cs_satisfied_proof.product_proof.z2 "
              "proof.r1cs_satisfied_proof.knowledge_product_proof.knowledge_proof.z1 proof.r1cs_satisfied_proof.knowledge_product_proof.knowledge_proof.z2 "
              "proof.r1cs_satisfied_proof.knowledge_product_proof.product_proof.z[0] proof.r1cs_satisfied_proof.knowledge_product_proof.product_proof.z[1] "
              "proof.r1cs_satisfied_proof.knowledge_product_proof.product_proof.z[2] proof.r1cs_satisfied_proof.knowledge_product_proof.product_proof.z[3] "
              "proof.r1cs_satisfied_proof.knowledge_product_proof.product_proof.z[4] proof.r1cs_satisfied_proof.sc1_eq_proof.z "
              "proof.r1cs_satisfied_proof.sc2_eq_proof.z",
    accept_may="",
    accept_exempt="vk.params.r1cs_satisfied_params.pc_params.n vk.params.r1cs_satisfied_params.pc_params.gen_n.n vk.params.r1cs_satisfied_params.pc_params.gen_n.h "
              "vk.params.r1cs_satisfied_params.pc_params.gen_1.n vk.params.r1cs_satisfied_params.sc_params.gen_1.n vk.params.r1cs_satisfied_params.sc_params.gen_3.n "
              "vk.params.r1cs_satisfied_params.sc_params.gen_4.n vk.params.r1cs_satisfied_params.n vk.r1cs.num_inputs vk.r1cs.num_aux",
    eqs=[
        EQ("number of public inputs",
           I("public_inputs.#len vk.r1cs.num_inputs", {}),
           ),
        EQ("sum_check_eval_verify verify_nizk_proof/r1cs_satisfied_verify/sum_check_verify/sum_check_eval_verify",
           I("proof.r1cs_satisfied_proof.proof_one.comm_polys[*] proof.r1cs_satisfied_proof.proof_one.proofs[*].d_commit "
             "proof.r1cs_satisfied_proof.proof_one.proofs[*].z[*] proof.r1cs_satisfied_proof.proof_one.proofs[*].z_delta "
             "vk.params.r1cs_satisfied_params.sc_params.gen_4.generators vk.params.r1cs_satisfied_params.sc_params.gen_4.h", {3: 1}),
           ),
        EQ("sum_check_eval_verify verify_nizk_proof/r1cs_satisfied_verify/sum_check_verify/sum_check_eval_verify",
           I("proof.r1cs_satisfied_proof.proof_one.comm_evals[*] proof.r1cs_satisfied_proof.proof_one.proofs[*].dot_cd_commit "
             "proof.r1cs_satisfied_proof.proof_one.proofs[*].z[0..4] proof.r1cs_satisfied_proof.proof_one.proofs[*].z_beta "
             "vk.params.r1cs_satisfied_params.sc_params.gen_1.generators vk.params.r1cs_satisfied_params.sc_params.gen_1.h", {1: 1, 2: 1, 3: 1}),
           ),
        EQ("knowledge_verify verify_nizk_proof/r1cs_satisfied_verify/knowledge_verify",
           I("proof.r1cs_satisfied_proof.knowledge_product_commit.vc_commit proof.r1cs_satisfied_proof.knowledge_product_proof.knowledge_proof.t_commit "
             "proof.r1cs_satisfied_proof.knowledge_product_proof.knowledge_proof.z1 proof.r1cs_satisfied_proof.knowledge_product_proof.knowledge_proof.z2 "
             "vk.params.r1cs_satisfied_params.sc_params.gen_1.generators vk.params.r1cs_satisfied_params.sc_params.gen_1.h", {4: 1}),
           ),
        EQ("product_verify verify_nizk_proof/r1cs_satisfied_verify/product_verify",
           I("proof.r1cs_satisfied_proof.knowledge_product_commit.va_commit proof.r1cs_satisfied_proof.knowledge_product_proof.product_proof.commit_alpha "
             "proof.r1cs_satisfied_proof.knowledge_product_proof.product_proof.z[0] proof.r1cs_satisfied_proof.knowledge_product_proof.product_proof.z[1] "
             "vk.params.r1cs_satisfied_params.sc_params.gen_1.generators vk.params.r1cs_satisfied_params.sc_params.gen_1.h", {5: 1}),
           ),
        EQ("product_verify verify_nizk_proof/r1cs_satisfied_verify/product_verify",
           I("proof.r1cs_satisfied_proof.knowledge_product_commit.vb_commit proof.r1cs_satisfied_proof.knowledge_product_proof.product_proof.commit_beta "
             "proof.r1cs_satisfied_proof.knowledge_product_proof.product_proof.z[2] proof.r1cs_satisfied_proof.knowledge_product_proof.product_proof.z[3] "
             "vk.params.r1cs_satisfied_params.sc_params.gen_1.generators vk.params.r1cs_satisfied_params.sc_params.gen_1.h", {5: 1}),
           ),
        EQ("product_verify verify_nizk_proof/r1cs_satisfied_verify/product_verify",
           I("proof.r1cs_satisfied_proof.knowledge_product_commit.prod_commit proof.r1cs_satisfied_proof.knowledge_product_commit.va_commit "
             "proof.r1cs_satisfied_proof.knowledge_product_proof.product_proof.commit_delta proof.r1cs_satisfied_proof.knowledge_product_proof.product_proof.z[2] "
             "proof.r1cs_satisfied_proof.knowledge_product_proof.product_proof.z[4] vk.params.r1cs_satisfied_params.sc_params.gen_1.h", {5: 1}),
           ),
        EQ("eq_verify verify_nizk_proof/r1cs_satisfied_verify/eq_verify",
           I("proof.r1cs_satisfied_proof.knowledge_product_commit.prod_commit proof.r1cs_satisfied_proof.knowledge_product_commit.vc_commit "
             "proof.r1cs_satisfied_proof.proof_one.comm_evals[*] proof.r1cs_satisfied_proof.sc1_eq_proof.alpha proof.r1cs_satisfied_proof.sc1_eq_proof.z "
             "vk.params.r1cs_satisfied_params.sc_params.gen_1.h", {0: 1, 1: 1, 6: 1}),
           ),
        EQ("sum_check_eval_verify verify_nizk_proof/r1cs_satisfied_verify/sum_check_verify/sum_check_eval_verify",
           I("proof.r1cs_satisfied_proof.proof_two.comm_polys[*] proof.r1cs_satisfied_proof.proof_two.proofs[*].d_commit "
             "proof.r1cs_satisfied_proof.proof_two.proofs[*].z[*] proof.r1cs_satisfied_proof.proof_two.proofs[*].z_delta "
             "vk.params.r1cs_satisfied_params.sc_params.gen_3.generators vk.params.r1cs_satisfied_params.sc_params.gen_3.h", {9: 1}),
           ),
        EQ("sum_check_eval_verify verify_nizk_proof/r1cs_satisfied_verify/sum_check_verify/sum_check_eval_verify",
           I("proof.r1cs_satisfied_proof.knowledge_product_commit.va_commit proof.r1cs_satisfied_proof.knowledge_product_commit.vb_commit "
             "proof.r1cs_satisfied_proof.knowledge_product_commit.vc_commit proof.r1cs_satisfied_proof.proof_two.comm_evals[*] "
             "proof.r1cs_satisfied_proof.proof_two.proofs[*].dot_cd_commit proof.r1cs_satisfied_proof.proof_two.proofs[*].z[0..3] "
             "proof.r1cs_satisfied_proof.proof_two.proofs[*].z_beta vk.params.r1cs_satisfied_params.sc_params.gen_1.generators "
             "vk.params.r1cs_satisfied_params.sc_params.gen_1.h", {6: 3, 7: 1, 8: 1, 9: 1}),
           ),
        EQ("bullet_inner_product_verify verify_nizk_proof/r1cs_satisfied_verify/inner_product_verify/bullet_inner_product_verify",
           I("proof.r1cs_satisfied_proof.product_proof.inner_product_proof.l_vec.#len proof.r1cs_satisfied_proof.product_proof.inner_product_proof.r_vec.#len", {}),
           ),
        EQ("inner_product_verify verify_nizk_proof/r1cs_satisfied_verify/inner_product_verify",
           I("proof.r1cs_satisfied_proof.commit_ry proof.r1cs_satisfied_proof.commit_witness proof.r1cs_satisfied_proof.product_proof.beta "
             "proof.r1cs_satisfied_proof.product_proof.delta proof.r1cs_satisfied_proof.product_proof.inner_product_proof.l_vec "
             "proof.r1cs_satisfied_proof.product_proof.inner_product_proof.r_vec proof.r1cs_satisfied_proof.product_proof.z1 "
             "proof.r1cs_satisfied_proof.product_proof.z2 vk.params.r1cs_satisfied_params.pc_params.gen_1.generators[0] "
             "vk.params.r1cs_satisfied_params.pc_params.gen_1.h vk.params.r1cs_satisfied_params.pc_params.gen_n.generators", {7: 1, 10: 1, 11: 1}),
           ),
        EQ("eq_verify verify_nizk_proof/r1cs_satisfied_verify/eq_verify",
           I("proof.r.0[*] proof.r.1[*] proof.r1cs_satisfied_proof.commit_ry proof.r1cs_satisfied_proof.proof_two.comm_evals[*] "
             "proof.r1cs_satisfied_proof.sc2_eq_proof.alpha proof.r1cs_satisfied_proof.sc2_eq_proof.z public_inputs[*] "
             "vk.params.r1cs_satisfied_params.pc_params.gen_1.generators vk.params.r1cs_satisfied_params.pc_params.gen_1.h vk.r1cs.a_matrix[*][*].0 "
             "vk.r1cs.a_matrix[*][*].1 vk.r1cs.b_matrix[*][*].0 vk.r1cs.b_matrix[*][*].1 vk.r1cs.c_matrix[*][*].0 vk.r1cs.c_matrix[*][*].1", {6: 3, 7: 1, 12: 1}),
           ),
        EQ("verify_nizk_proof verify_nizk_proof",
           I("proof.r.0", {1: 1}),
           ),
        EQ("verify_nizk_proof verify_nizk_proof",
           I("proof.r.1", {7: 1}),
           ),
    ],
)

SPEC["spartan_snark_verify"] = dict(
    len_exempt="proof.r1cs_satisfied_proof.commit_witness proof.r1cs_evals_proof.derefs_commit proof.r1cs_evals_proof.prod_layer_proof.proof_ops.claim_dotp.0 proof.r1cs_evals_proof.prod_layer_proof.proof_ops.claim_dotp.1 proof.r1cs_evals_proof.prod_layer_proof.proof_ops.claim_dotp.2",
    root="root_spartan_snark_verify",
    lits={'proof.r1cs_satisfied_proof.knowledge_product_proof.product_proof.z': 5},
    fs=[
        (1, "proof.r1cs_satisfied_proof.commit_witness[*] public_inputs[*] vk.encode_comm.m vk.encode_comm.mem_commit[*] vk.encode_comm.n "
            "vk.encode_comm.ops_commit[*] vk.params.r1cs_eval_params.derefs_params.gen_1.generators[*] vk.params.r1cs_eval_params.derefs_params.gen_1.h "
            "vk.params.r1cs_eval_params.derefs_params.gen_1.n vk.params.r1cs_eval_params.derefs_params.gen_n.generators[*] "
            "vk.params.r1cs_eval_params.derefs_params.gen_n.h vk.params.r1cs_eval_params.derefs_params.gen_n.n vk.params.r1cs_eval_params.derefs_params.n "
            "vk.params.r1cs_eval_params.mem_params.gen_1.generators[*] vk.params.r1cs_eval_params.mem_params.gen_1.h vk.params.r1cs_eval_params.mem_params.gen_1.n "
            "vk.params.r1cs_eval_params.mem_params.gen_n.generators[*] vk.params.r1cs_eval_params.mem_params.gen_n.h vk.params.r1cs_eval_params.mem_params.gen_n.n "
            "vk.params.r1cs_eval_params.mem_params.n vk.params.r1cs_eval_params.ops_params.gen_1.generators[*] vk.params.r1cs_eval_params.ops_params.gen_1.h "
            "vk.params.r1cs_eval_params.ops_params.gen_1.n vk.params.r1cs_eval_params.ops_params.gen_n.generators[*] vk.params.r1cs_eval_params.ops_params.gen_n.h "
            "vk.params.r1cs_eval_params.ops_params.gen_n.n vk.params.r1cs_eval_params.ops_params.n vk.params.r1cs_satisfied_params.n "
            "vk.params.r1cs_satisfied_params.pc_params.gen_1.generators[*] vk.params.r1cs_satisfied_params.pc_params.gen_1.h "
            "vk.params.r1cs_satisfied_params.pc_params.gen_1.n vk.params.r1cs_satisfied_params.pc_params.gen_n.generators[*] "
            "vk.params.r1cs_satisfied_params.pc_params.gen_n.h vk.params.r1cs_satisfied_params.pc_params.gen_n.n vk.params.r1cs_satisfied_params.pc_params.n "
            "vk.params.r1cs_satisfied_params.sc_params.gen_1.generators[*] vk.params.r1cs_satisfied_params.sc_params.gen_1.h "
            "vk.params.r1cs_satisfied_params.sc_params.gen_1.n vk.params.r1cs_satisfied_params.sc_params.gen_3.generators[*] "
            "vk.params.r1cs_satisfied_params.sc_params.gen_3.h vk.params.r1cs_satisfied_params.sc_params.gen_3.n "
            "vk.params.r1cs_satisfied_params.sc_params.gen_4.generators[*] vk.params.r1cs_satisfied_params.sc_params.gen_4.h "
            "vk.params.r1cs_satisfied_params.sc_params.gen_4.n vk.r1cs.a_matrix[*][*].0 vk.r1cs.a_matrix[*][*].1 vk.r1cs.b_matrix[*][*].0 vk.r1cs.b_matrix[*][*].1 "
            "vk.r1cs.c_matrix[*][*].0 vk.r1cs.c_matrix[*][*].1 vk.r1cs.num_aux vk.r1cs.num_constraints vk.r1cs.num_inputs"),
        (1, "proof.r1cs_satisfied_proof.proof_one.comm_polys[*]"),
        (1, "proof.r1cs_satisfied_proof.proof_one.comm_evals[*]"),
        (1, "proof.r1cs_satisfied_proof.proof_one.proofs[*].d_commit proof.r1cs_satisfied_proof.proof_one.proofs[*].dot_cd_commit"),
        (1, "proof.r1cs_satisfied_proof.knowledge_product_commit.vc_commit proof.r1cs_satisfied_proof.knowledge_product_proof.knowledge_proof.t_commit"),
        (1, "proof.r1cs_satisfied_proof.knowledge_product_commit.prod_commit proof.r1cs_satisfied_proof.knowledge_product_commit.va_commit "
            "proof.r1cs_satisfied_proof.knowledge_product_commit.vb_commit proof.r1cs_satisfied_proof.knowledge_product_proof.product_proof.commit_alpha "
            "proof.r1cs_satisfied_proof.knowledge_product_proof.product_proof.commit_beta "
            "proof.r1cs_satisfied_proof.knowledge_product_proof.product_proof.commit_delta"),
        (4, "proof.r1cs_satisfied_proof.sc1_eq_proof.alpha"),
        (1, "proof.r1cs_satisfied_proof.proof_two.comm_polys[*]"),
        (1, "proof.r1cs_satisfied_proof.proof_two.comm_evals[*]"),
        (1, "proof.r1cs_satisfied_proof.proof_two.proofs[*].d_commit proof.r1cs_satisfied_proof.proof_two.proofs[*].dot_cd_commit"),
        (1, "proof.r1cs_satisfied_proof.commit_ry proof.r1cs_satisfied_proof.product_proof.inner_product_proof.l_vec[*] "
            "proof.r1cs_satisfied_proof.product_proof.inner_product_proof.r_vec[*]"),
        (1, "proof.r1cs_satisfied_proof.product_proof.beta proof.r1cs_satisfied_proof.product_proof.delta"),
        (1, "proof.matrix_evals.0 proof.matrix_evals.1 proof.matrix_evals.2 proof.r1cs_satisfied_proof.sc2_eq_proof.alpha"),
        (1, "proof.r1cs_evals_proof.derefs_commit[*]"),
        (1, "proof.r1cs_evals_proof.prod_layer_proof.eval_col.0 proof.r1cs_evals_proof.prod_layer_proof.eval_col.1[*] "
            "proof.r1cs_evals_proof.prod_layer_proof.eval_col.2[*] proof.r1cs_evals_proof.prod_layer_proof.eval_col.3 "
            "proof.r1cs_evals_proof.prod_layer_proof.eval_dotp.0[*] proof.r1cs_evals_proof.prod_layer_proof.eval_dotp.1[*] "
            "proof.r1cs_evals_proof.prod_layer_proof.eval_row.0 proof.r1cs_evals_proof.prod_layer_proof.eval_row.1[*] "
            "proof.r1cs_evals_proof.prod_layer_proof.eval_row.2[*] proof.r1cs_evals_proof.prod_layer_proof.eval_row.3"),
        (1, "proof.r1cs_evals_proof.prod_layer_proof.proof_ops.layers_proof[*].polys[*]"),
        (2, "~proof.r1cs_evals_proof.prod_layer_proof.proof_ops.claim_dotp.0[*] ~proof.r1cs_evals_proof.prod_layer_proof.proof_ops.claim_dotp.1[*] ~proof.r1cs_evals_proof.prod_layer_proof.proof_ops.claim_dotp.2[*] "
            "proof.r1cs_evals_proof.prod_layer_proof.proof_ops.layers_proof[*].claim_prod_left[*] "
            "proof.r1cs_evals_proof.prod_layer_proof.proof_ops.layers_proof[*].claim_prod_right[*]"),
        (1, "proof.r1cs_evals_proof.prod_layer_proof.proof_memory.layers_proof[*].polys[*]"),
        (1, "proof.r1cs_evals_proof.prod_layer_proof.proof_memory.layers_proof[*].claim_prod_left[*] "
            "proof.r1cs_evals_proof.prod_layer_proof.proof_memory.layers_proof[*].claim_prod_right[*]"),
        (1, "proof.r1cs_evals_proof.hash_layer_proof.evals_derefs.0[*] proof.r1cs_evals_proof.hash_layer_proof.evals_derefs.1[*]"),
        (1, "proof.r1cs_evals_proof.hash_layer_proof.proof_derefs.inner_product_proof.l_vec[*] "
            "proof.r1cs_evals_proof.hash_layer_proof.proof_derefs.inner_product_proof.r_vec[*]"),
        (1, "proof.r1cs_evals_proof.hash_layer_proof.proof_derefs.beta proof.r1cs_evals_proof.hash_layer_proof.proof_derefs.delta"),
        (1, "proof.r1cs_evals_proof.hash_layer_proof.evals_col.0[*] proof.r1cs_evals_proof.hash_layer_proof.evals_col.1[*] "
            "proof.r1cs_evals_proof.hash_layer_proof.evals_row.0[*] proof.r1cs_evals_proof.hash_layer_proof.evals_row.1[*] "
            "proof.r1cs_evals_proof.hash_layer_proof.evals_val[*]"),
        (1, "proof.r1cs_evals_proof.hash_layer_proof.proof_ops.inner_product_proof.l_vec[*] "
            "proof.r1cs_evals_proof.hash_layer_proof.proof_ops.inner_product_proof.r_vec[*]"),
        (1, "proof.r1cs_evals_proof.hash_layer_proof.proof_ops.beta proof.r1cs_evals_proof.hash_layer_proof.proof_ops.delta"),
        (1, "proof.r1cs_evals_proof.hash_layer_proof.evals_col.2 proof.r1cs_evals_proof.hash_layer_proof.evals_row.2"),
        (1, "proof.r1cs_evals_proof.hash_layer_proof.proof_mem.inner_product_proof.l_vec[*] "
            "proof.r1cs_evals_proof.hash_layer_proof.proof_mem.inner_product_proof.r_vec[*]"),
        (1, "proof.r1cs_evals_proof.hash_layer_proof.proof_mem.beta proof.r1cs_evals_proof.hash_layer_proof.proof_mem.delta"),
    ],
    # in may only:  proof.r1cs_evals_proof.prod_layer_proof.proof_memory.claim_dotp.0[*] proof.r1cs_evals_proof.prod_layer_proof.proof_memory.claim_dotp.1[*] proof.r1cs_evals_proof.prod_layer_proof.proof_memory.claim_dotp.2[*] proof.r1cs_evals_proof.prod_layer_proof.proof_ops.claim_dotp.0[*] proof.r1cs_evals_proof.prod_layer_proof.proof_ops.claim_dotp.1[*] proof.r1cs_evals_proof.prod_layer_proof.proof_ops.claim_dotp.2[*]
    fs_exempt="proof.r1cs_satisfied_proof.proof_one.proofs[*].z[*] proof.r1cs_satisfied_proof.proof_one.proofs[*].z_delta "
              "proof.r1cs_satisfied_proof.proof_one.proofs[*].z_beta proof.r1cs_satisfied_proof.proof_two.proofs[*].z[*] "
              "proof.r1cs_satisfied_proof.proof_two.proofs[*].z_delta proof.r1cs_satisfied_proof.proof_two.proofs[*].z_beta "
              "proof.r1cs_satisfied_proof.product_proof.z1 proof.r1cs_satisfied_proof.product_proof.z2 "
              "proof.r1cs_satisfied_proof.knowledge_product_proof.knowledge_proof.z1 proof.r1cs_satisfied_proof.knowledge_product_proof.knowledge_proof.z2 "
              "proof.r1cs_satisfied_proof.knowledge_product_proof.product_proof.z[0] proof.r1cs_satisfied_proof.knowledge_product_proof.product_proof.z[1] "
              "proof.r1cs_satisfied_proof.knowledge_product_proof.product_proof.z[2] proof.r1cs_satisfied_proof.knowledge_product_proof.product_proof.z[3] "
              "proof.r1cs_satisfied_proof.knowledge_product_proof.product_proof.z[4] proof.r1cs_satisfied_proof.sc1_eq_proof.z "
              "proof.r1cs_satisfied_proof.sc2_eq_proof.z proof.r1cs_evals_proof.prod_layer_proof.proof_memory.claim_dotp.0[*] "
              "proof.r1cs_evals_proof.prod_layer_proof.proof_memory.claim_dotp.1[*] proof.r1cs_evals_proof.prod_layer_proof.proof_memory.claim_dotp.2[*] "
              "proof.r1cs_evals_proof.prod_layer_proof.proof_ops.claim_dotp.0[*] proof.r1cs_evals_proof.prod_layer_proof.proof_ops.claim_dotp.1[*] "
              "proof.r1cs_evals_proof.prod_layer_proof.proof_ops.claim_dotp.2[*] proof.r1cs_evals_proof.hash_layer_proof.proof_derefs.z1 "
              "proof.r1cs_evals_proof.hash_layer_proof.proof_derefs.z2 proof.r1cs_evals_proof.hash_layer_proof.proof_ops.z1 "
              "proof.r1cs_evals_proof.hash_layer_proof.proof_ops.z2 proof.r1cs_evals_proof.hash_layer_proof.proof_mem.z1 "
              "proof.r1cs_evals_proof.hash_layer_proof.proof_mem.z2",
    accept_may="proof.r1cs_evals_proof.prod_layer_proof.proof_memory.claim_dotp.0[*] proof.r1cs_evals_proof.prod_layer_proof.proof_memory.claim_dotp.1[*] "
              "proof.r1cs_evals_proof.prod_layer_proof.proof_memory.claim_dotp.2[*] proof.r1cs_evals_proof.prod_layer_proof.proof_ops.claim_dotp.0[*] "
              "proof.r1cs_evals_proof.prod_layer_proof.proof_ops.claim_dotp.1[*] proof.r1cs_evals_proof.prod_layer_proof.proof_ops.claim_dotp.2[*]",
    accept_exempt="vk.params.r1cs_eval_params.ops_params.n vk.params.r1cs_eval_params.ops_params.gen_n.n vk.params.r1cs_eval_params.ops_params.gen_n.h "
              "vk.params.r1cs_eval_params.ops_params.gen_1.n vk.params.r1cs_eval_params.mem_params.n vk.params.r1cs_eval_params.mem_params.gen_n.n "
              "vk.params.r1cs_eval_params.mem_params.gen_n.h vk.params.r1cs_eval_params.mem_params.gen_1.n vk.params.r1cs_eval_params.derefs_params.n "
              "vk.params.r1cs_eval_params.derefs_params.gen_n.n vk.params.r1cs_eval_params.derefs_params.gen_n.h vk.params.r1cs_eval_params.derefs_params.gen_1.n "
              "vk.params.r1cs_satisfied_params.pc_params.n vk.params.r1cs_satisfied_params.pc_params.gen_n.n vk.params.r1cs_satisfied_params.pc_params.gen_n.h "
              "vk.params.r1cs_satisfied_params.pc_params.gen_1.n vk.params.r1cs_satisfied_params.sc_params.gen_1.n vk.params.r1cs_satisfied_params.sc_params.gen_3.n "
              "vk.params.r1cs_satisfied_params.sc_params.gen_4.n vk.params.r1cs_satisfied_params.n vk.r1cs.num_inputs vk.r1cs.num_aux vk.r1cs.a_matrix[*][*].0 "
              "vk.r1cs.b_matrix[*][*].0 vk.r1cs.c_matrix[*][*].0",
    # a different number makes the index of a coefficient or of the nine claims fail
    trip_exempt="proof.r1cs_evals_proof.prod_layer_proof.proof_ops.claim_dotp.0.#len "
                "proof.r1cs_evals_proof.prod_layer_proof.proof_memory.claim_dotp.0.#len",
    eqs=[
        EQ("number of public inputs",
           I("public_inputs.#len vk.r1cs.num_inputs", {}),
           ),
        EQ("sum_check_eval_verify verify_snark_proof/r1cs_satisfied_verify/sum_check_verify/sum_check_eval_verify",
           I("proof.r1cs_satisfied_proof.proof_one.comm_polys[*] proof.r1cs_satisfied_proof.proof_one.proofs[*].d_commit "
             "proof.r1cs_satisfied_proof.proof_one.proofs[*].z[*] proof.r1cs_satisfied_proof.proof_one.proofs[*].z_delta "
             "vk.params.r1cs_satisfied_params.sc_params.gen_4.generators vk.params.r1cs_satisfied_params.sc_params.gen_4.h", {3: 1}),
           ),
        EQ("sum_check_eval_verify verify_snark_proof/r1cs_satisfied_verify/sum_check_verify/sum_check_eval_verify",
           I("proof.r1cs_satisfied_proof.proof_one.comm_evals[*] proof.r1cs_satisfied_proof.proof_one.proofs[*].dot_cd_commit "
             "proof.r1cs_satisfied_proof.proof_one.proofs[*].z[0..4] proof.r1cs_satisfied_proof.proof_one.proofs[*].z_beta "
             "vk.params.r1cs_satisfied_params.sc_params.gen_1.generators vk.params.r1cs_satisfied_params.sc_params.gen_1.h", {1: 1, 2: 1, 3: 1}),
           ),
        EQ("knowledge_verify verify_snark_proof/r1cs_satisfied_verify/knowledge_verify",
           I("proof.r1cs_satisfied_proof.knowledge_product_commit.vc_commit proof.r1cs_satisfied_proof.knowledge_product_proof.knowledge_proof.t_commit "
             "proof.r1cs_satisfied_proof.knowledge_product_proof.knowledge_proof.z1 proof.r1cs_satisfied_proof.knowledge_product_proof.knowledge_proof.z2 "
             "vk.params.r1cs_satisfied_params.sc_params.gen_1.generators vk.params.r1cs_satisfied_params.sc_params.gen_1.h", {4: 1}),
           ),
        EQ("product_verify verify_snark_proof/r1cs_satisfied_verify/product_verify",
           I("proof.r1cs_satisfied_proof.knowledge_product_commit.va_commit proof.r1cs_satisfied_proof.knowledge_product_proof.product_proof.commit_alpha "
             "proof.r1cs_satisfied_proof.knowledge_product_proof.product_proof.z[0] proof.r1cs_satisfied_proof.knowledge_product_proof.product_proof.z[1] "
             "vk.params.r1cs_satisfied_params.sc_params.gen_1.generators vk.params.r1cs_satisfied_params.sc_params.gen_1.h", {5: 1}),
           ),
        EQ("product_verify verify_snark_proof/r1cs_satisfied_verify/product_verify",
           I("proof.r1cs_satisfied_proof.knowledge_product_commit.vb_commit proof.r1cs_satisfied_proof.knowledge_product_proof.product_proof.commit_beta "
             "proof.r1cs_satisfied_proof.knowledge_product_proof.product_proof.z[2] proof.r1cs_satisfied_proof.knowledge_product_proof.product_proof.z[3] "
             "vk.params.r1cs_satisfied_params.sc_params.gen_1.generators vk.params.r1cs_satisfied_params.sc_params.gen_1.h", {5: 1}),
           ),
        EQ("product_verify verify_snark_proof/r1cs_satisfied_verify/product_verify",
           I("proof.r1cs_satisfied_proof.knowledge_product_commit.prod_commit proof.r1cs_satisfied_proof.knowledge_product_commit.va_commit "
             "proof.r1cs_satisfied_proof.knowledge_product_proof.product_proof.commit_delta proof.r1cs_satisfied_proof.knowledge_product_proof.product_proof.z[2] "
             "proof.r1cs_satisfied_proof.knowledge_product_proof.product_proof.z[4] vk.params.r1cs_satisfied_params.sc_params.gen_1.h", {5: 1}),
           ),
        EQ("eq_verify verify_snark_proof/r1cs_satisfied_verify/eq_verify",
           I("proof.r1cs_satisfied_proof.knowledge_product_commit.prod_commit proof.r1cs_satisfied_proof.knowledge_product_commit.vc_commit "
             "proof.r1cs_satisfied_proof.proof_one.comm_evals[*] proof.r1cs_satisfied_proof.sc1_eq_proof.alpha proof.r1cs_satisfied_proof.sc1_eq_proof.z "
             "vk.params.r1cs_satisfied_params.sc_params.gen_1.h", {0: 1, 1: 1, 6: 1}),
           ),
        EQ("sum_check_eval_verify verify_snark_proof/r1cs_satisfied_verify/sum_check_verify/sum_check_eval_verify",
           I("proof.r1cs_satisfied_proof.proof_two.comm_polys[*] proof.r1cs_satisfied_proof.proof_two.proofs[*].d_commit "
             "proof.r1cs_satisfied_proof.proof_two.proofs[*].z[*] proof.r1cs_satisfied_proof.proof_two.proofs[*].z_delta "
             "vk.params.r1cs_satisfied_params.sc_params.gen_3.generators vk.params.r1cs_satisfied_params.sc_params.gen_3.h", {9: 1}),
           ),
        EQ("sum_check_eval_verify verify_snark_proof/r1cs_satisfied_verify/sum_check_verify/sum_check_eval_verify",
           I("proof.r1cs_satisfied_proof.knowledge_product_commit.va_commit proof.r1cs_satisfied_proof.knowledge_product_commit.vb_commit "
             "proof.r1cs_satisfied_proof.knowledge_product_commit.vc_commit proof.r1cs_satisfied_proof.proof_two.comm_evals[*] "
             "proof.r1cs_satisfied_proof.proof_two.proofs[*].dot_cd_commit proof.r1cs_satisfied_proof.proof_two.proofs[*].z[0..3] "
             "proof.r1cs_satisfied_proof.proof_two.proofs[*].z_beta vk.params.r1cs_satisfied_params.sc_params.gen_1.generators "
             "vk.params.r1cs_satisfied_params.sc_params.gen_1.h", {6: 3, 7: 1, 8: 1, 9: 1}),
           ),
        EQ("bullet_inner_product_verify verify_snark_proof/r1cs_satisfied_verify/inner_product_verify/bullet_inner_product_verify",
           I("proof.r1cs_satisfied_proof.product_proof.inner_product_proof.l_vec.#len proof.r1cs_satisfied_proof.product_proof.inner_product_proof.r_vec.#len", {}),
           ),
        EQ("inner_product_verify verify_snark_proof/r1cs_satisfied_verify/inner_product_verify",
           I("proof.r1cs_satisfied_proof.commit_ry proof.r1cs_satisfied_proof.commit_witness proof.r1cs_satisfied_proof.product_proof.beta "
             "proof.r1cs_satisfied_proof.product_proof.delta proof.r1cs_satisfied_proof.product_proof.inner_product_proof.l_vec "
             "proof.r1cs_satisfied_proof.product_proof.inner_product_proof.r_vec proof.r1cs_satisfied_proof.product_proof.z1 "
             "proof.r1cs_satisfied_proof.product_proof.z2 vk.params.r1cs_satisfied_params.pc_params.gen_1.generators[0] "
             "vk.params.r1cs_satisfied_params.pc_params.gen_1.h vk.params.r1cs_satisfied_params.pc_params.gen_n.generators", {7: 1, 10: 1, 11: 1}),
           ),
        EQ("eq_verify verify_snark_proof/r1cs_satisfied_verify/eq_verify",
           I("proof.matrix_evals.0 proof.matrix_evals.1 proof.matrix_evals.2 proof.r1cs_satisfied_proof.commit_ry proof.r1cs_satisfied_proof.proof_two.comm_evals[*] "
             "proof.r1cs_satisfied_proof.sc2_eq_proof.alpha proof.r1cs_satisfied_proof.sc2_eq_proof.z public_inputs[*] "
             "vk.params.r1cs_satisfied_params.pc_params.gen_1.generators vk.params.r1cs_satisfied_params.pc_params.gen_1.h", {6: 3, 7: 1, 12: 1}),
           ),
        EQ("product_layer_verify verify_snark_proof/sparse_poly_eval_verify/product_layer_verify",
           I("proof.r1cs_evals_proof.prod_layer_proof.eval_row.1.#len", {}),
           ),
        EQ("product_layer_verify verify_snark_proof/sparse_poly_eval_verify/product_layer_verify",
           I("proof.r1cs_evals_proof.prod_layer_proof.eval_row.2.#len", {}),
           ),
        EQ("product_layer_verify verify_snark_proof/sparse_poly_eval_verify/product_layer_verify",
           I("proof.r1cs_evals_proof.prod_layer_proof.eval_col.1.#len", {}),
           ),
        EQ("product_layer_verify verify_snark_proof/sparse_poly_eval_verify/product_layer_verify",
           I("proof.r1cs_evals_proof.prod_layer_proof.eval_col.2.#len", {}),
           ),
        EQ("product_layer_verify verify_snark_proof/sparse_poly_eval_verify/product_layer_verify",
           I("proof.r1cs_evals_proof.prod_layer_proof.eval_dotp.0.#len", {}),
           ),
        EQ("product_layer_verify verify_snark_proof/sparse_poly_eval_verify/product_layer_verify",
           I("proof.r1cs_evals_proof.prod_layer_proof.eval_dotp.1.#len", {}),
           ),
        EQ("product_layer_verify verify_snark_proof/sparse_poly_eval_verify/product_layer_verify",
           I("proof.r1cs_evals_proof.prod_layer_proof.eval_row.0 proof.r1cs_evals_proof.prod_layer_proof.eval_row.1[*] "
             "proof.r1cs_evals_proof.prod_layer_proof.eval_row.2[*] proof.r1cs_evals_proof.prod_layer_proof.eval_row.3", {}),
           ),
        EQ("product_layer_verify verify_snark_proof/sparse_poly_eval_verify/product_layer_verify",
           I("proof.r1cs_evals_proof.prod_layer_proof.eval_col.0 proof.r1cs_evals_proof.prod_layer_proof.eval_col.1[*] "
             "proof.r1cs_evals_proof.prod_layer_proof.eval_col.2[*] proof.r1cs_evals_proof.prod_layer_proof.eval_col.3", {}),
           ),
        EQ("product_layer_verify verify_snark_proof/sparse_poly_eval_verify/product_layer_verify",
           I("proof.matrix_evals.0 proof.matrix_evals.1 proof.matrix_evals.2 proof.r1cs_evals_proof.prod_layer_proof.eval_dotp.0[*] "
             "proof.r1cs_evals_proof.prod_layer_proof.eval_dotp.1[*]", {}),
           ),
        EQ("product_circuit_eval_verify verify_snark_proof/sparse_poly_eval_verify/product_layer_verify/product_circuit_eval_verify",
           I("proof.r1cs_evals_proof.prod_layer_proof.proof_ops.layers_proof.#len vk.encode_comm.n", {}),
           ),
        EQ("sum_check_cubic_verify verify_snark_proof/sparse_poly_eval_verify/product_layer_verify/product_circuit_eval_verify/sum_check_cubic_verify",
           I("proof.r1cs_evals_proof.prod_layer_proof.proof_ops.layers_proof[*].polys.#len", {}),
           ),
        EQ("sum_check_cubic_verify verify_snark_proof/sparse_poly_eval_verify/product_layer_verify/product_circuit_eval_verify/sum_check_cubic_verify",
           I("proof.r1cs_evals_proof.prod_layer_proof.eval_col.1[*] proof.r1cs_evals_proof.prod_layer_proof.eval_col.2[*] "
             "proof.r1cs_evals_proof.prod_layer_proof.eval_row.1[*] proof.r1cs_evals_proof.prod_layer_proof.eval_row.2[*] "
             "proof.r1cs_evals_proof.prod_layer_proof.proof_ops.layers_proof[*].polys[*]", {14: 1}),
           I("proof.r1cs_evals_proof.prod_layer_proof.proof_ops.layers_proof[*].polys[*]", {15: 1}),
           I("proof.r1cs_evals_proof.prod_layer_proof.proof_ops.layers_proof[*].claim_prod_left[*] "
             "proof.r1cs_evals_proof.prod_layer_proof.proof_ops.layers_proof[*].claim_prod_right[*] "
             "proof.r1cs_evals_proof.prod_layer_proof.proof_ops.layers_proof[*].polys[*]", {14: 1, 16: 1}),
           may="proof.r1cs_evals_proof.prod_layer_proof.eval_dotp.0[*] proof.r1cs_evals_proof.prod_layer_proof.eval_dotp.1[*]"),
        EQ("product_circuit_eval_verify verify_snark_proof/sparse_poly_eval_verify/product_layer_verify/product_circuit_eval_verify",
           I("proof.r1cs_evals_proof.prod_layer_proof.proof_ops.layers_proof[*].claim_prod_left.#len "
             "proof.r1cs_evals_proof.prod_layer_proof.proof_ops.layers_proof[*].claim_prod_right.#len", {}),
           ),
        EQ("product_circuit_eval_verify verify_snark_proof/sparse_poly_eval_verify/product_layer_verify/product_circuit_eval_verify",
           I("proof.r1cs_evals_proof.prod_layer_proof.proof_ops.layers_proof[*].claim_prod_left.#len", {}),
           may="proof.r1cs_evals_proof.prod_layer_proof.eval_col.1[*] proof.r1cs_evals_proof.prod_layer_proof.eval_col.2[*] "
               "proof.r1cs_evals_proof.prod_layer_proof.eval_row.1[*] proof.r1cs_evals_proof.prod_layer_proof.eval_row.2[*]"),
        EQ("product_circuit_eval_verify verify_snark_proof/sparse_poly_eval_verify/product_layer_verify/product_circuit_eval_verify",
           I("proof.r1cs_evals_proof.prod_layer_proof.proof_ops.layers_proof[*].claim_prod_left[*] "
             "proof.r1cs_evals_proof.prod_layer_proof.proof_ops.layers_proof[*].claim_prod_right[*] "
             "proof.r1cs_evals_proof.prod_layer_proof.proof_ops.layers_proof[*].polys[*]", {14: 1, 15: 1, 16: 1}),
           may="proof.r1cs_evals_proof.prod_layer_proof.proof_ops.claim_dotp.0[*] proof.r1cs_evals_proof.prod_layer_proof.proof_ops.claim_dotp.1[*] "
               "proof.r1cs_evals_proof.prod_layer_proof.proof_ops.claim_dotp.2[*]"),
        EQ("product_circuit_eval_verify verify_snark_proof/sparse_poly_eval_verify/product_layer_verify/product_circuit_eval_verify",
           I("proof.r1cs_evals_proof.prod_layer_proof.proof_memory.layers_proof.#len vk.encode_comm.m", {}),
           ),
        EQ("sum_check_cubic_verify verify_snark_proof/sparse_poly_eval_verify/product_layer_verify/product_circuit_eval_verify/sum_check_cubic_verify",
           I("proof.r1cs_evals_proof.prod_layer_proof.proof_memory.layers_proof[*].polys.#len", {}),
           ),
        EQ("sum_check_cubic_verify verify_snark_proof/sparse_poly_eval_verify/product_layer_verify/product_circuit_eval_verify/sum_check_cubic_verify",
           I("proof.r1cs_evals_proof.prod_layer_proof.eval_col.0 proof.r1cs_evals_proof.prod_layer_proof.eval_col.3 "
             "proof.r1cs_evals_proof.prod_layer_proof.eval_row.0 proof.r1cs_evals_proof.prod_layer_proof.eval_row.3 "
             "proof.r1cs_evals_proof.prod_layer_proof.proof_memory.layers_proof[*].polys[*]", {16: 1}),
           I("proof.r1cs_evals_proof.prod_layer_proof.proof_memory.layers_proof[*].polys[*]", {17: 1}),
           I("proof.r1cs_evals_proof.prod_layer_proof.proof_memory.layers_proof[*].claim_prod_left[*] "
             "proof.r1cs_evals_proof.prod_layer_proof.proof_memory.layers_proof[*].claim_prod_right[*] "
             "proof.r1cs_evals_proof.prod_layer_proof.proof_memory.layers_proof[*].polys[*]", {16: 1, 18: 1}),
           ),
        EQ("product_circuit_eval_verify verify_snark_proof/sparse_poly_eval_verify/product_layer_verify/product_circuit_eval_verify",
           I("proof.r1cs_evals_proof.prod_layer_proof.proof_memory.layers_proof[*].claim_prod_left.#len "
             "proof.r1cs_evals_proof.prod_layer_proof.proof_memory.layers_proof[*].claim_prod_right.#len", {}),
           ),
        EQ("product_circuit_eval_verify verify_snark_proof/sparse_poly_eval_verify/product_layer_verify/product_circuit_eval_verify",
           I("proof.r1cs_evals_proof.prod_layer_proof.proof_memory.layers_proof[*].claim_prod_left.#len", {}),
           ),
        EQ("product_circuit_eval_verify verify_snark_proof/sparse_poly_eval_verify/product_layer_verify/product_circuit_eval_verify",
           I("proof.r1cs_evals_proof.prod_layer_proof.proof_memory.layers_proof[*].claim_prod_left[*] "
             "proof.r1cs_evals_proof.prod_layer_proof.proof_memory.layers_proof[*].claim_prod_right[*] "
             "proof.r1cs_evals_proof.prod_layer_proof.proof_memory.layers_proof[*].polys[*]", {16: 1, 17: 1, 18: 1}),
           may="proof.r1cs_evals_proof.prod_layer_proof.proof_memory.claim_dotp.0[*] proof.r1cs_evals_proof.prod_layer_proof.proof_memory.claim_dotp.1[*] "
               "proof.r1cs_evals_proof.prod_layer_proof.proof_memory.claim_dotp.2[*]"),
        EQ("sparse_poly_eval_verify verify_snark_proof/sparse_poly_eval_verify",
           I("proof.r1cs_evals_proof.prod_layer_proof.proof_memory.layers_proof[*].claim_prod_left.#len", {}),
           ),
        EQ("sparse_poly_eval_verify verify_snark_proof/sparse_poly_eval_verify",
           I("proof.r1cs_evals_proof.prod_layer_proof.proof_ops.layers_proof[*].claim_prod_left.#len", {}),
           ),
        EQ("hash_layer_verify verify_snark_proof/sparse_poly_eval_verify/hash_layer_verify",
           I("proof.r1cs_evals_proof.hash_layer_proof.evals_derefs.0.#len proof.r1cs_evals_proof.hash_layer_proof.evals_derefs.1.#len", {}),
           ),
        EQ("hash_layer_verify verify_snark_proof/sparse_poly_eval_verify/hash_layer_verify",
           I("proof.r1cs_evals_proof.hash_layer_proof.evals_derefs.0.#len", {}),
           ),
        EQ("bullet_inner_product_verify verify_snark_proof/sparse_poly_eval_verify/hash_layer_verify/inner_product_verify/bullet_inner_product_verify",
           I("proof.r1cs_evals_proof.hash_layer_proof.proof_derefs.inner_product_proof.l_vec.#len "
             "proof.r1cs_evals_proof.hash_layer_proof.proof_derefs.inner_product_proof.r_vec.#len", {}),
           ),
        EQ("inner_product_verify verify_snark_proof/sparse_poly_eval_verify/hash_layer_verify/inner_product_verify",
           I("proof.r1cs_evals_proof.derefs_commit proof.r1cs_evals_proof.hash_layer_proof.evals_derefs.0[*] "
             "proof.r1cs_evals_proof.hash_layer_proof.evals_derefs.1[*] proof.r1cs_evals_proof.hash_layer_proof.proof_derefs.beta "
             "proof.r1cs_evals_proof.hash_layer_proof.proof_derefs.delta proof.r1cs_evals_proof.hash_layer_proof.proof_derefs.inner_product_proof.l_vec "
             "proof.r1cs_evals_proof.hash_layer_proof.proof_derefs.inner_product_proof.r_vec proof.r1cs_evals_proof.hash_layer_proof.proof_derefs.z1 "
             "proof.r1cs_evals_proof.hash_layer_proof.proof_derefs.z2 vk.params.r1cs_eval_params.derefs_params.gen_1.generators "
             "vk.params.r1cs_eval_params.derefs_params.gen_1.generators[0] vk.params.r1cs_eval_params.derefs_params.gen_1.h "
             "vk.params.r1cs_eval_params.derefs_params.gen_n.generators", {15: 1, 16: 1, 19: 1, 20: 1, 21: 1}),
           ),
        EQ("hash_layer_verify verify_snark_proof/sparse_poly_eval_verify/hash_layer_verify",
           I("proof.r1cs_evals_proof.hash_layer_proof.evals_val.#len", {}),
           ),
        EQ("hash_layer_verify verify_snark_proof/sparse_poly_eval_verify/hash_layer_verify",
           I("proof.r1cs_evals_proof.hash_layer_proof.evals_derefs.0[0..3]", {}),
           may="proof.r1cs_evals_proof.prod_layer_proof.proof_ops.claim_dotp.0[*] proof.r1cs_evals_proof.prod_layer_proof.proof_ops.claim_dotp.1[*] "
               "proof.r1cs_evals_proof.prod_layer_proof.proof_ops.claim_dotp.2[*]"),
        EQ("hash_layer_verify verify_snark_proof/sparse_poly_eval_verify/hash_layer_verify",
           I("proof.r1cs_evals_proof.hash_layer_proof.evals_derefs.1[0..3]", {}),
           may="proof.r1cs_evals_proof.prod_layer_proof.proof_ops.claim_dotp.0[*] proof.r1cs_evals_proof.prod_layer_proof.proof_ops.claim_dotp.1[*] "
               "proof.r1cs_evals_proof.prod_layer_proof.proof_ops.claim_dotp.2[*]"),
        EQ("hash_layer_verify verify_snark_proof/sparse_poly_eval_verify/hash_layer_verify",
           I("proof.r1cs_evals_proof.hash_layer_proof.evals_val[0..3]", {}),
           may="proof.r1cs_evals_proof.prod_layer_proof.proof_ops.claim_dotp.0[*] proof.r1cs_evals_proof.prod_layer_proof.proof_ops.claim_dotp.1[*] "
               "proof.r1cs_evals_proof.prod_layer_proof.proof_ops.claim_dotp.2[*]"),
        EQ("bullet_inner_product_verify verify_snark_proof/sparse_poly_eval_verify/hash_layer_verify/inner_product_verify/bullet_inner_product_verify",
           I("proof.r1cs_evals_proof.hash_layer_proof.proof_ops.inner_product_proof.l_vec.#len "
             "proof.r1cs_evals_proof.hash_layer_proof.proof_ops.inner_product_proof.r_vec.#len", {}),
           ),
        EQ("inner_product_verify verify_snark_proof/sparse_poly_eval_verify/hash_layer_verify/inner_product_verify",
           I("proof.r1cs_evals_proof.hash_layer_proof.evals_col.0[*] proof.r1cs_evals_proof.hash_layer_proof.evals_col.1[*] "
             "proof.r1cs_evals_proof.hash_layer_proof.evals_row.0[*] proof.r1cs_evals_proof.hash_layer_proof.evals_row.1[*] "
             "proof.r1cs_evals_proof.hash_layer_proof.evals_val[*] proof.r1cs_evals_proof.hash_layer_proof.proof_ops.beta "
             "proof.r1cs_evals_proof.hash_layer_proof.proof_ops.delta proof.r1cs_evals_proof.hash_layer_proof.proof_ops.inner_product_proof.l_vec "
             "proof.r1cs_evals_proof.hash_layer_proof.proof_ops.inner_product_proof.r_vec proof.r1cs_evals_proof.hash_layer_proof.proof_ops.z1 "
             "proof.r1cs_evals_proof.hash_layer_proof.proof_ops.z2 vk.encode_comm.ops_commit vk.params.r1cs_eval_params.ops_params.gen_1.generators "
             "vk.params.r1cs_eval_params.ops_params.gen_1.generators[0] vk.params.r1cs_eval_params.ops_params.gen_1.h "
             "vk.params.r1cs_eval_params.ops_params.gen_n.generators", {15: 1, 16: 1, 22: 1, 23: 1, 24: 1}),
           ),
        EQ("bullet_inner_product_verify verify_snark_proof/sparse_poly_eval_verify/hash_layer_verify/inner_product_verify/bullet_inner_product_verify",
           I("proof.r1cs_evals_proof.hash_layer_proof.proof_mem.inner_product_proof.l_vec.#len "
             "proof.r1cs_evals_proof.hash_layer_proof.proof_mem.inner_product_proof.r_vec.#len", {}),
           ),
        EQ("inner_product_verify verify_snark_proof/sparse_poly_eval_verify/hash_layer_verify/inner_product_verify",
           I("proof.r1cs_evals_proof.hash_layer_proof.evals_col.2 proof.r1cs_evals_proof.hash_layer_proof.evals_row.2 "
             "proof.r1cs_evals_proof.hash_layer_proof.proof_mem.beta proof.r1cs_evals_proof.hash_layer_proof.proof_mem.delta "
             "proof.r1cs_evals_proof.hash_layer_proof.proof_mem.inner_product_proof.l_vec proof.r1cs_evals_proof.hash_layer_proof.proof_mem.inner_product_proof.r_vec "
             "proof.r1cs_evals_proof.hash_layer_proof.proof_mem.z1 proof.r1cs_evals_proof.hash_layer_proof.proof_mem.z2 vk.encode_comm.mem_commit "
             "vk.params.r1cs_eval_params.mem_params.gen_1.generators vk.params.r1cs_eval_params.mem_params.gen_1.generators[0] "
             "vk.params.r1cs_eval_params.mem_params.gen_1.h vk.params.r1cs_eval_params.mem_params.gen_n.generators", {17: 1, 18: 1, 25: 1, 26: 1, 27: 1}),
           ),
        EQ("behind_verify_for_timestamp verify_snark_proof/sparse_poly_eval_verify/hash_layer_verify/behind_verify_for_timestamp",
           I("proof.r1cs_evals_proof.prod_layer_proof.proof_memory.layers_proof[*].claim_prod_left[*] "
             "proof.r1cs_evals_proof.prod_layer_proof.proof_memory.layers_proof[*].claim_prod_right[*]", {1: 1, 13: 1, 17: 1, 18: 1}),
           ),
        EQ("behind_verify_for_timestamp verify_snark_proof/sparse_poly_eval_verify/hash_layer_verify/behind_verify_for_timestamp",
           I("proof.r1cs_evals_proof.hash_layer_proof.evals_derefs.0[*] proof.r1cs_evals_proof.hash_layer_proof.evals_row.0[*] "
             "proof.r1cs_evals_proof.hash_layer_proof.evals_row.1[*] proof.r1cs_evals_proof.prod_layer_proof.proof_ops.layers_proof[*].claim_prod_left[*] "
             "proof.r1cs_evals_proof.prod_layer_proof.proof_ops.layers_proof[*].claim_prod_right[*]", {13: 1, 16: 1}),
           ),
        EQ("behind_verify_for_timestamp verify_snark_proof/sparse_poly_eval_verify/hash_layer_verify/behind_verify_for_timestamp",
           I("proof.r1cs_evals_proof.hash_layer_proof.evals_derefs.0[*] proof.r1cs_evals_proof.hash_layer_proof.evals_row.0[*] "
             "proof.r1cs_evals_proof.hash_layer_proof.evals_row.1[*] proof.r1cs_evals_proof.prod_layer_proof.proof_ops.layers_proof[*].claim_prod_left[*] "
             "proof.r1cs_evals_proof.prod_layer_proof.proof_ops.layers_proof[*].claim_prod_right[*]", {13: 1, 16: 1}),
           ),
        EQ("behind_verify_for_timestamp verify_snark_proof/sparse_poly_eval_verify/hash_layer_verify/behind_verify_for_timestamp",
           I("proof.r1cs_evals_proof.hash_layer_proof.evals_row.2 proof.r1cs_evals_proof.prod_layer_proof.proof_memory.layers_proof[*].claim_prod_left[*] "
             "proof.r1cs_evals_proof.prod_layer_proof.proof_memory.layers_proof[*].claim_prod_right[*]", {1: 1, 13: 1, 17: 1, 18: 1}),
           ),
        EQ("behind_verify_for_timestamp verify_snark_proof/sparse_poly_eval_verify/hash_layer_verify/behind_verify_for_timestamp",
           I("proof.r1cs_evals_proof.prod_layer_proof.proof_memory.layers_proof[*].claim_prod_left[*] "
             "proof.r1cs_evals_proof.prod_layer_proof.proof_memory.layers_proof[*].claim_prod_right[*]", {7: 1, 13: 1, 17: 1, 18: 1}),
           ),
        EQ("behind_verify_for_timestamp verify_snark_proof/sparse_poly_eval_verify/hash_layer_verify/behind_verify_for_timestamp",
           I("proof.r1cs_evals_proof.hash_layer_proof.evals_col.0[*] proof.r1cs_evals_proof.hash_layer_proof.evals_col.1[*] "
             "proof.r1cs_evals_proof.hash_layer_proof.evals_derefs.1[*] proof.r1cs_evals_proof.prod_layer_proof.proof_ops.layers_proof[*].claim_prod_left[*] "
             "proof.r1cs_evals_proof.prod_layer_proof.proof_ops.layers_proof[*].claim_prod_right[*]", {13: 1, 16: 1}),
           ),
        EQ("behind_verify_for_timestamp verify_snark_proof/sparse_poly_eval_verify/hash_layer_verify/behind_verify_for_timestamp",
           I("proof.r1cs_evals_proof.hash_layer_proof.evals_col.0[*] proof.r1cs_evals_proof.hash_layer_proof.evals_col.1[*] "
             "proof.r1cs_evals_proof.hash_layer_proof.evals_derefs.1[*] proof.r1cs_evals_proof.prod_layer_proof.proof_ops.layers_proof[*].claim_prod_left[*] "
             "proof.r1cs_evals_proof.prod_layer_proof.proof_ops.layers_proof[*].claim_prod_right[*]", {13: 1, 16: 1}),
           ),
        EQ("behind_verify_for_timestamp verify_snark_proof/sparse_poly_eval_verify/hash_layer_verify/behind_verify_for_timestamp",
           I("proof.r1cs_evals_proof.hash_layer_proof.evals_col.2 proof.r1cs_evals_proof.prod_layer_proof.proof_memory.layers_proof[*].claim_prod_left[*] "
             "proof.r1cs_evals_proof.prod_layer_proof.proof_memory.layers_proof[*].claim_prod_right[*]", {7: 1, 13: 1, 17: 1, 18: 1}),
           ),
    ],
)

SPEC["libra_verify"] = dict(
    root="root_libra_verify",
    lits={'proof.proofs[*].proof_phase_one.poly_value_at_r': 4, 'proof.proofs[*].proof_phase_two.poly_value_at_r': 3},
    fs=[
        (1, "circuit.depth circuit.layers[*].bit_size circuit.layers[*].gates[*].g circuit.layers[*].gates[*].left_node circuit.layers[*].gates[*].op "
            "circuit.layers[*].gates[*].right_node circuit.layers[*].gates_count inputs[*] outputs[*]"),
        (1, "proof.proofs[*].proof_phase_one.polys[*]"),
        (1, "proof.proofs[*].proof_phase_one.poly_value_at_r[0] proof.proofs[*].proof_phase_one.poly_value_at_r[1] "
            "proof.proofs[*].proof_phase_one.poly_value_at_r[2] proof.proofs[*].proof_phase_one.poly_value_at_r[3] proof.proofs[*].proof_phase_two.polys[*]"),
        (2, "proof.proofs[*].proof_phase_two.poly_value_at_r[0] proof.proofs[*].proof_phase_two.poly_value_at_r[1] "
            "proof.proofs[*].proof_phase_two.poly_value_at_r[2]"),
    ],
    fs_exempt="",
    accept_may="circuit.layers[*].gates[*].g circuit.layers[*].gates[*].left_node circuit.layers[*].gates[*].right_node",
    accept_exempt="circuit.layers[*].gates_count circuit.layers[*].gates[*].op",
    eqs=[
        EQ("number of outputs",
           I("outputs.#len circuit.layers[*].gates_count", {}),
           ),
        EQ("verify ",
           I("circuit.depth proof.proofs.#len", {}),
           ),
        EQ("verify ",
           I("outputs[*] proof.proofs[*].proof_phase_one.polys[*]", {0: 1}),
           I("proof.proofs[*].proof_phase_one.polys[*]", {1: 1}),
           may="proof.proofs[*].proof_phase_one.poly_value_at_r[0] proof.proofs[*].proof_phase_two.poly_value_at_r[0]"),
        EQ("verify ",
           I("proof.proofs[*].proof_phase_one.poly_value_at_r[0] proof.proofs[*].proof_phase_one.poly_value_at_r[1] "
             "proof.proofs[*].proof_phase_one.poly_value_at_r[2] proof.proofs[*].proof_phase_one.poly_value_at_r[3] proof.proofs[*].proof_phase_one.polys[*]", {1: 1}),
           ),
        EQ("verify ",
           I("proof.proofs[*].proof_phase_one.polys[*] proof.proofs[*].proof_phase_two.polys[*]", {1: 1}),
           I("proof.proofs[*].proof_phase_two.polys[*]", {2: 1}),
           ),
        EQ("verify ",
           I("proof.proofs[*].proof_phase_one.poly_value_at_r[0] proof.proofs[*].proof_phase_two.poly_value_at_r[0] "
             "proof.proofs[*].proof_phase_two.poly_value_at_r[1] proof.proofs[*].proof_phase_two.poly_value_at_r[2] proof.proofs[*].proof_phase_two.polys[*]", {2: 1}),
           ),
        EQ("verify ",
           I("proof.proofs[*].proof_phase_two.poly_value_at_r[1]", {}),
           may="circuit.layers[*].gates[*].g circuit.layers[*].gates[*].left_node circuit.layers[*].gates[*].right_node"),
        EQ("verify ",
           I("proof.proofs[*].proof_phase_two.poly_value_at_r[2]", {}),
           may="circuit.layers[*].gates[*].g circuit.layers[*].gates[*].left_node circuit.layers[*].gates[*].right_node"),
        EQ("verify ",
           I("inputs[*]", {1: 1}),
           may="proof.proofs[*].proof_phase_one.poly_value_at_r[0]"),
        EQ("verify ",
           I("inputs[*]", {2: 1}),
           may="proof.proofs[*].proof_phase_two.poly_value_at_r[0]"),
    ],
)

SPEC["libra_zk_verify"] = dict(
    len_exempt="proof.comm_witness",
    root="root_libra_zk_verify",
    lits={'proof.proofs[*].prod_proof.z': 5},
    fs=[
        (1, "circuit.depth circuit.layers[*].bit_size circuit.layers[*].gates[*].g circuit.layers[*].gates[*].left_node circuit.layers[*].gates[*].op "
            "circuit.layers[*].gates[*].right_node circuit.layers[*].gates_count inputs[*] outputs[*] params.pc_params.gen_1.generators[*] params.pc_params.gen_1.h "
            "params.pc_params.gen_1.n params.pc_params.gen_n.generators[*] params.pc_params.gen_n.h params.pc_params.gen_n.n params.pc_params.n "
            "params.sc_params.gen_1.generators[*] params.sc_params.gen_1.h params.sc_params.gen_1.n params.sc_params.gen_3.generators[*] params.sc_params.gen_3.h "
            "params.sc_params.gen_3.n params.sc_params.gen_4.generators[*] params.sc_params.gen_4.h params.sc_params.gen_4.n proof.comm_witness[*]"),
        (1, "proof.proofs[*].proof_phase_one.comm_polys[*]"),
        (1, "proof.proofs[*].proof_phase_one.comm_evals[*]"),
        (1, "proof.proofs[*].proof_phase_one.proofs[*].d_commit proof.proofs[*].proof_phase_one.proofs[*].dot_cd_commit"),
        (1, "proof.proofs[*].comm_x proof.proofs[*].proof_phase_two.comm_polys[*]"),
        (1, "proof.proofs[*].proof_phase_two.comm_evals[*]"),
        (1, "proof.proofs[*].proof_phase_two.proofs[*].d_commit proof.proofs[*].proof_phase_two.proofs[*].dot_cd_commit"),
        (1, "proof.proofs[*].comm_y proof.proofs[*].comm_z proof.proofs[*].prod_proof.comm_alpha proof.proofs[*].prod_proof.comm_beta "
            "proof.proofs[*].prod_proof.comm_delta"),
        (3, "proof.proofs[*].eq_proof.alpha"),
        (1, "proof.comm_y0 proof.prod_proof0.bullet_reduce_proof.l_vec[*] proof.prod_proof0.bullet_reduce_proof.r_vec[*]"),
        (1, "proof.prod_proof0.beta proof.prod_proof0.delta"),
        (1, "proof.eq_proof0.alpha"),
        (1, "proof.comm_y1 proof.prod_proof1.bullet_reduce_proof.l_vec[*] proof.prod_proof1.bullet_reduce_proof.r_vec[*]"),
        (1, "proof.prod_proof1.beta proof.prod_proof1.delta"),
        (1, "proof.eq_proof1.alpha"),
    ],
    fs_exempt="proof.proofs[*].proof_phase_one.proofs[*].z[*] proof.proofs[*].proof_phase_one.proofs[*].z_delta proof.proofs[*].proof_phase_one.proofs[*].z_beta "
              "proof.proofs[*].proof_phase_two.proofs[*].z[*] proof.proofs[*].proof_phase_two.proofs[*].z_delta proof.proofs[*].proof_phase_two.proofs[*].z_beta "
              "proof.proofs[*].prod_proof.z[0] proof.proofs[*].prod_proof.z[1] proof.proofs[*].prod_proof.z[2] proof.proofs[*].prod_proof.z[3] "
              "proof.proofs[*].prod_proof.z[4] proof.proofs[*].eq_proof.z proof.prod_proof0.z1 proof.prod_proof0.z2 proof.eq_proof0.z proof.prod_proof1.z1 "
              "proof.prod_proof1.z2 proof.eq_proof1.z",
    accept_may="circuit.layers[*].gates[*].g circuit.layers[*].gates[*].left_node circuit.layers[*].gates[*].right_node",
    accept_exempt="params.sc_params.gen_1.n params.sc_params.gen_3.n params.sc_params.gen_4.n params.sc_params.gen_4.generators[*] params.sc_params.gen_4.h "
              "params.pc_params.n params.pc_params.gen_n.n params.pc_params.gen_n.h params.pc_params.gen_1.n circuit.layers[*].gates_count "
              "circuit.layers[*].gates[*].op",
    eqs=[
        EQ("number of outputs",
           I("outputs.#len circuit.layers[*].gates_count", {}),
           ),
        EQ("verify ",
           I("circuit.depth proof.proofs.#len", {}),
           ),
        EQ("verify verify",
           I("params.sc_params.gen_3.generators params.sc_params.gen_3.h proof.proofs[*].proof_phase_one.comm_polys[*] "
             "proof.proofs[*].proof_phase_one.proofs[*].d_commit proof.proofs[*].proof_phase_one.proofs[*].z[*] proof.proofs[*].proof_phase_one.proofs[*].z_delta", {3: 1}),
           ),
        EQ("verify verify",
           I("outputs[*] params.pc_params.gen_1.generators params.pc_params.gen_1.h params.sc_params.gen_1.generators params.sc_params.gen_1.h "
             "proof.proofs[*].proof_phase_one.comm_evals[*] proof.proofs[*].proof_phase_one.proofs[*].dot_cd_commit proof.proofs[*].proof_phase_one.proofs[*].z[0..3] "
             "proof.proofs[*].proof_phase_one.proofs[*].z_beta", {0: 1, 1: 1, 2: 1, 3: 1}),
           may="proof.proofs[*].comm_x proof.proofs[*].comm_y proof.proofs[*].proof_phase_two.comm_evals[*]"),
        EQ("verify verify",
           I("params.sc_params.gen_3.generators params.sc_params.gen_3.h proof.proofs[*].proof_phase_two.comm_polys[*] "
             "proof.proofs[*].proof_phase_two.proofs[*].d_commit proof.proofs[*].proof_phase_two.proofs[*].z[*] proof.proofs[*].proof_phase_two.proofs[*].z_delta", {6: 1}),
           ),
        EQ("verify verify",
           I("params.sc_params.gen_1.generators params.sc_params.gen_1.h proof.proofs[*].proof_phase_one.comm_evals[*] proof.proofs[*].proof_phase_two.comm_evals[*] "
             "proof.proofs[*].proof_phase_two.proofs[*].dot_cd_commit proof.proofs[*].proof_phase_two.proofs[*].z[0..3] "
             "proof.proofs[*].proof_phase_two.proofs[*].z_beta", {4: 1, 5: 1, 6: 1}),
           ),
        EQ("verify verify",
           I("params.sc_params.gen_1.generators params.sc_params.gen_1.h proof.proofs[*].comm_x proof.proofs[*].prod_proof.comm_alpha proof.proofs[*].prod_proof.z[0] "
             "proof.proofs[*].prod_proof.z[1]", {7: 1}),
           ),
        EQ("verify verify",
           I("params.sc_params.gen_1.generators params.sc_params.gen_1.h proof.proofs[*].comm_y proof.proofs[*].prod_proof.comm_beta proof.proofs[*].prod_proof.z[2] "
             "proof.proofs[*].prod_proof.z[3]", {7: 1}),
           ),
        EQ("verify verify",
           I("params.sc_params.gen_1.h proof.proofs[*].comm_x proof.proofs[*].comm_z proof.proofs[*].prod_proof.comm_delta proof.proofs[*].prod_proof.z[2] "
             "proof.proofs[*].prod_proof.z[4]", {7: 1}),
           ),
        EQ("verify verify",
           I("params.sc_params.gen_1.h proof.proofs[*].comm_x proof.proofs[*].comm_y proof.proofs[*].comm_z proof.proofs[*].eq_proof.alpha proof.proofs[*].eq_proof.z "
             "proof.proofs[*].proof_phase_two.comm_evals[*]", {8: 1}),
           may="circuit.layers[*].gates[*].g circuit.layers[*].gates[*].left_node circuit.layers[*].gates[*].right_node"),
        EQ("verify reduce_verifier/verify/verify",
           I("proof.prod_proof0.bullet_reduce_proof.l_vec.#len proof.prod_proof0.bullet_reduce_proof.r_vec.#len", {}),
           ),
        EQ("verify reduce_verifier/verify",
           I("params.pc_params.gen_1.generators[0] params.pc_params.gen_1.h params.pc_params.gen_n.generators proof.comm_witness proof.comm_y0 proof.prod_proof0.beta "
             "proof.prod_proof0.bullet_reduce_proof.l_vec proof.prod_proof0.bullet_reduce_proof.r_vec proof.prod_proof0.delta proof.prod_proof0.z1 "
             "proof.prod_proof0.z2", {1: 1, 9: 1, 10: 1}),
           ),
        EQ("verify verify",
           I("inputs[*] params.pc_params.gen_1.generators params.pc_params.gen_1.h proof.comm_y0 proof.eq_proof0.alpha proof.eq_proof0.z", {1: 1, 11: 1}),
           may="outputs outputs[*] proof.proofs[*].comm_x"),
        EQ("verify reduce_verifier/verify/verify",
           I("proof.prod_proof1.bullet_reduce_proof.l_vec.#len proof.prod_proof1.bullet_reduce_proof.r_vec.#len", {}),
           ),
        EQ("verify reduce_verifier/verify",
           I("params.pc_params.gen_1.generators[0] params.pc_params.gen_1.h params.pc_params.gen_n.generators proof.comm_witness proof.comm_y1 proof.prod_proof1.beta "
             "proof.prod_proof1.bullet_reduce_proof.l_vec proof.prod_proof1.bullet_reduce_proof.r_vec proof.prod_proof1.delta proof.prod_proof1.z1 "
             "proof.prod_proof1.z2", {4: 1, 12: 1, 13: 1}),
           ),
        EQ("verify verify",
           I("inputs[*] params.pc_params.gen_1.generators params.pc_params.gen_1.h proof.comm_y1 proof.eq_proof1.alpha proof.eq_proof1.z", {4: 1, 14: 1}),
           may="outputs outputs[*] proof.proofs[*].comm_y"),
    ],
)

SPEC["hyrax_verify"] = dict(
    len_exempt="proof.comm_witness",
    root="root_hyrax_verify",
    lits={'proof.proofs[*].prod_proof.z': 5},
    fs=[
        (2, "circuit.depth circuit.layers[*].bit_size circuit.layers[*].gates[*].g circuit.layers[*].gates[*].left_node circuit.layers[*].gates[*].op "
            "circuit.layers[*].gates[*].right_node circuit.layers[*].gates_count inputs[*][*] outputs[*][*] params.pc_params.gen_1.generators[*] "
            "params.pc_params.gen_1.h params.pc_params.gen_1.n params.pc_params.gen_n.generators[*] params.pc_params.gen_n.h params.pc_params.gen_n.n "
            "params.pc_params.n params.sc_params.gen_1.generators[*] params.sc_params.gen_1.h params.sc_params.gen_1.n params.sc_params.gen_3.generators[*] "
            "params.sc_params.gen_3.h params.sc_params.gen_3.n params.sc_params.gen_4.generators[*] params.sc_params.gen_4.h params.sc_params.gen_4.n "
            "proof.comm_witness[*]"),
        (1, "proof.proofs[*].comm_polys[*]"),
        (1, "proof.proofs[*].comm_evals[*] proof.proofs[*].comm_x proof.proofs[*].comm_y proof.proofs[*].comm_z proof.proofs[*].prod_proof.comm_alpha "
            "proof.proofs[*].prod_proof.comm_beta proof.proofs[*].prod_proof.comm_delta"),
        (1, "proof.proofs[*].comm_deltas[*]"),
        (3, "proof.proofs[*].comm_c"),
        (1, "proof.comm_y0 proof.prod_proof0.bullet_reduce_proof.l_vec[*] proof.prod_proof0.bullet_reduce_proof.r_vec[*]"),
        (1, "proof.prod_proof0.beta proof.prod_proof0.delta"),
        (1, "proof.eq_proof0.alpha"),
        (1, "proof.comm_y1 proof.prod_proof1.bullet_reduce_proof.l_vec[*] proof.prod_proof1.bullet_reduce_proof.r_vec[*]"),
        (1, "proof.prod_proof1.beta proof.prod_proof1.delta"),
        (1, "proof.eq_proof1.alpha"),
    ],
    fs_exempt="proof.proofs[*].prod_proof.z[0] proof.proofs[*].prod_proof.z[1] proof.proofs[*].prod_proof.z[2] proof.proofs[*].prod_proof.z[3] "
              "proof.proofs[*].prod_proof.z[4] proof.proofs[*].comm_a0 proof.proofs[*].z_vec[*] proof.proofs[*].z_delta_vec[*] proof.proofs[*].zc proof.prod_proof0.z1 "
              "proof.prod_proof0.z2 proof.eq_proof0.z proof.prod_proof1.z1 proof.prod_proof1.z2 proof.eq_proof1.z",
    accept_may="params.sc_params.gen_3.generators[*] params.sc_params.gen_3.h params.sc_params.gen_4.generators[*] params.sc_params.gen_4.h "
              "circuit.layers[*].gates[*].g circuit.layers[*].gates[*].left_node circuit.layers[*].gates[*].right_node",
    accept_exempt="proof.proofs[*].comm_evals[*] params.sc_params.gen_1.n params.sc_params.gen_3.n params.sc_params.gen_4.n params.pc_params.n params.pc_params.gen_n.n "
              "params.pc_params.gen_n.h params.pc_params.gen_1.n circuit.layers[*].bit_size circuit.layers[*].gates[*].op",
    eqs=[
        EQ("number of statements",
           I("inputs.#len outputs.#len", {}),
           ),
        EQ("number of outputs",
           I("outputs[*].#len circuit.layers[*].gates_count", {}),
           ),
        EQ("verify verify",
           I("outputs[*][*] params.sc_params.gen_1.generators params.sc_params.gen_1.h proof.proofs[*].comm_a0", {0: 2}),
           may="proof.proofs[*].comm_x proof.proofs[*].comm_y"),
        EQ("verify verify/sumcheck_verify/verify",
           I("params.sc_params.gen_1.generators params.sc_params.gen_1.h proof.proofs[*].comm_x proof.proofs[*].prod_proof.comm_alpha proof.proofs[*].prod_proof.z[0] "
             "proof.proofs[*].prod_proof.z[1]", {2: 1}),
           ),
        EQ("verify verify/sumcheck_verify/verify",
           I("params.sc_params.gen_1.generators params.sc_params.gen_1.h proof.proofs[*].comm_y proof.proofs[*].prod_proof.comm_beta proof.proofs[*].prod_proof.z[2] "
             "proof.proofs[*].prod_proof.z[3]", {2: 1}),
           ),
        EQ("verify verify/sumcheck_verify/verify",
           I("params.sc_params.gen_1.h proof.proofs[*].comm_x proof.proofs[*].comm_z proof.proofs[*].prod_proof.comm_delta proof.proofs[*].prod_proof.z[2] "
             "proof.proofs[*].prod_proof.z[4]", {2: 1}),
           ),
        EQ("sumcheck_verify verify/sumcheck_verify",
           I("proof.proofs[*].comm_deltas[*] proof.proofs[*].comm_polys[*] proof.proofs[*].z_delta_vec[*] proof.proofs[*].z_vec[*]", {4: 1}),
           may="params.sc_params.gen_3.generators params.sc_params.gen_3.h params.sc_params.gen_4.generators params.sc_params.gen_4.h"),
        EQ("sumcheck_verify verify/sumcheck_verify",
           I("params.sc_params.gen_1.generators params.sc_params.gen_1.h proof.proofs[*].comm_a0 proof.proofs[*].comm_c proof.proofs[*].comm_x proof.proofs[*].comm_y "
             "proof.proofs[*].comm_z proof.proofs[*].z_vec[*] proof.proofs[*].zc", {3: 1, 4: 1}),
           may="circuit.layers[*].gates[*].g circuit.layers[*].gates[*].left_node circuit.layers[*].gates[*].right_node"),
        EQ("verify reduce_verifier/verify/verify",
           I("proof.prod_proof0.bullet_reduce_proof.l_vec.#len proof.prod_proof0.bullet_reduce_proof.r_vec.#len", {}),
           ),
        EQ("verify reduce_verifier/verify",
           I("params.pc_params.gen_1.generators[0] params.pc_params.gen_1.h params.pc_params.gen_n.generators proof.comm_witness proof.comm_y0 proof.prod_proof0.beta "
             "proof.prod_proof0.bullet_reduce_proof.l_vec proof.prod_proof0.bullet_reduce_proof.r_vec proof.prod_proof0.delta proof.prod_proof0.z1 "
             "proof.prod_proof0.z2", {5: 1, 6: 1}),
           ),
        EQ("verify verify",
           I("inputs[*][*] params.pc_params.gen_1.generators params.pc_params.gen_1.h proof.comm_y0 proof.eq_proof0.alpha proof.eq_proof0.z proof.proofs[*].comm_x", {7: 1}),
           ),
        EQ("verify reduce_verifier/verify/verify",
           I("proof.prod_proof1.bullet_reduce_proof.l_vec.#len proof.prod_proof1.bullet_reduce_proof.r_vec.#len", {}),
           ),
        EQ("verify reduce_verifier/verify",
           I("params.pc_params.gen_1.generators[0] params.pc_params.gen_1.h params.pc_params.gen_n.generators proof.comm_witness proof.comm_y1 proof.prod_proof1.beta "
             "proof.prod_proof1.bullet_reduce_proof.l_vec proof.prod_proof1.bullet_reduce_proof.r_vec proof.prod_proof1.delta proof.prod_proof1.z1 "
             "proof.prod_proof1.z2", {8: 1, 9: 1}),
           ),
        EQ("verify verify",
           I("inputs[*][*] params.pc_params.gen_1.generators params.pc_params.gen_1.h proof.comm_y1 proof.eq_proof1.alpha proof.eq_proof1.z proof.proofs[*].comm_y", {10: 1}),
           ),
    ],
)

