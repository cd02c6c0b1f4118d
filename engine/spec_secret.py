"""Which fresh secrets every output has to carry (see rules_secret.py).

Names stand for draws from the caller's generator; `name*d` means one draw per iteration
of the d loops that produce the elements.  `no_scalars`: no scalar output may depend on a draw.
`public`: outputs that need no blinding because they do not depend on the witness, which is checked.
`exempt`: outputs that are claimed output values, or functions of them.
"""
SECRET = {}

SECRET["groth16_prove"] = dict(
    root="root_groth16_prove",
    leaves={
        ".a": "s3",
        ".b": "s4",
        ".c": "s3 s4",
    },
    # s3=prover.rs:107 s4=prover.rs:108
    witness='circuit\\.(x|y)',
    public="",
    exempt="",
)

SECRET["bulletproofs_prove"] = dict(
    root="root_bulletproofs_prove",
    leaves={
        ".0.g_vec_N[*]": "s59*1",
        ".0.h_vec_N[*]": "s61*1",
        ".0.g": "s63",
        ".0.h": "s63",
        ".0.u": "s64",
        ".2.A_I": "s59 s61 s63 s79",
        ".2.A_O": "s59 s63 s80",
        ".2.A_W": "s59 s63 s82",
        ".2.S": "s59 s61 s63 s76 s78 s81",
        ".2.T_2": "s63 s147",
        ".2.T_3": "s63 s148",
        ".2.T_5": "s63 s76 s149",
        ".2.T_6": "s63 s76 s150",
        ".2.T_7": "s63 s76 s78 s151",
        ".2.T_8": "s63 s78 s152",
        ".2.T_9": "s63 s78 s153",
        ".2.T_10": "s63 s76 s78 s154",
        ".2.mu": "s79 s80 s81 s82",
        ".2.tau_x": "s147 s148 s149 s150 s151 s152 s153 s154",
        ".2.l_x[*]": "s76*1",
        ".2.r_x[*]": "s78*1",
        ".2.t_x": "s76 s78",
        ".2.IPP.L_vec[*]": "s59*1 s61*1 s64 s76*1 s78*1",
        ".2.IPP.R_vec[*]": "s59*1 s61*1 s64 s76*1 s78*1",
        ".2.IPP.a": "s76",
        ".2.IPP.b": "s78",
        ".2.IPP_P": "s59 s61 s64 s76 s78",
    },
    # s59=arithmetic_circuit.rs:865 s61=arithmetic_circuit.rs:865 s63=arithmetic_circuit.rs:865 s64=arithmetic_circuit.rs:282
    # s79=arithmetic_circuit.rs:358 s80=arithmetic_circuit.rs:359 s82=arithmetic_circuit.rs:361 s76=arithmetic_circuit.rs:354
    # s78=arithmetic_circuit.rs:355 s81=arithmetic_circuit.rs:360 s147=arithmetic_circuit.rs:494 s148=arithmetic_circuit.rs:495
    # s149=arithmetic_circuit.rs:496 s150=arithmetic_circuit.rs:497 s151=arithmetic_circuit.rs:498 s152=arithmetic_circuit.rs:499
    # s153=arithmetic_circuit.rs:500 s154=arithmetic_circuit.rs:501
    witness='circuit\\.(x|y)',
    public=".0.n .0.N .0.k .0.n_w .1.CL[*][*] .1.CR[*][*] .1.CO[*][*] .1.CL_T[*].0.0 .1.CR_T[*].0.0 .1.CO_T[*].0.0",
    exempt=".1.CL_T[*].0.1 .1.CL_T[*].1 .1.CR_T[*].0.1 .1.CR_T[*].1 .1.CO_T[*].0.1 .1.CO_T[*].1",
)

SECRET["spartan_nizk_prove"] = dict(
    root="root_spartan_nizk_prove",
    lits={'.r1cs_satisfied_proof.knowledge_product_proof.product_proof.z': 5},
    leaves={
        ".r1cs_satisfied_proof.commit_witness[*]": "s48*1",
        ".r1cs_satisfied_proof.proof_one.comm_polys[*]": "s64*1",
        ".r1cs_satisfied_proof.proof_one.comm_evals[*]": "s65*1",
        ".r1cs_satisfied_proof.proof_one.proofs[*].d_commit": "s116*1 s117*1",
        ".r1cs_satisfied_proof.proof_one.proofs[*].dot_cd_commit": "s116*1 s122*1",
        ".r1cs_satisfied_proof.proof_one.proofs[*].z[*]": "s116*2",
        ".r1cs_satisfied_proof.proof_one.proofs[*].z_delta": "s64*1 s117*1",
        ".r1cs_satisfied_proof.proof_one.proofs[*].z_beta": "s65*1 s122*1",
        ".r1cs_satisfied_proof.proof_two.comm_polys[*]": "s209*1",
        ".r1cs_satisfied_proof.proof_two.comm_evals[*]": "s210*1",
        ".r1cs_satisfied_proof.proof_two.proofs[*].d_commit": "s241*1 s242*1",
        ".r1cs_satisfied_proof.proof_two.proofs[*].dot_cd_commit": "s241*1 s247*1",
        ".r1cs_satisfied_proof.proof_two.proofs[*].z[*]": "s241*2",
        ".r1cs_satisfied_proof.proof_two.proofs[*].z_delta": "s209*1 s242*1",
        ".r1cs_satisfied_proof.proof_two.proofs[*].z_beta": "s210*1 s247*1",
        ".r1cs_satisfied_proof.product_proof.inner_product_proof.l_vec[*]": "s269*1",
        ".r1cs_satisfied_proof.product_proof.inner_product_proof.r_vec[*]": "s270*1",
        ".r1cs_satisfied_proof.product_proof.delta": "s265 s266",
        ".r1cs_satisfied_proof.product_proof.beta": "s265 s267",
        ".r1cs_satisfied_proof.product_proof.z1": "s265",
        ".r1cs_satisfied_proof.product_proof.z2": "s258 s266 s267 s269 s270",
        ".r1cs_satisfied_proof.knowledge_product_commit.va_commit": "s131",
        ".r1cs_satisfied_proof.knowledge_product_commit.vb_commit": "s132",
        ".r1cs_satisfied_proof.knowledge_product_commit.vc_commit": "s133",
        ".r1cs_satisfied_proof.knowledge_product_commit.prod_commit": "s134",
        ".r1cs_satisfied_proof.knowledge_product_proof.knowledge_proof.t_commit": "s136 s137",
        ".r1cs_satisfied_proof.knowledge_product_proof.knowledge_proof.z1": "s136",
        ".r1cs_satisfied_proof.knowledge_product_proof.knowledge_proof.z2": "s133 s137",
        ".r1cs_satisfied_proof.knowledge_product_proof.product_proof.commit_alpha": "s149 s150",
        ".r1cs_satisfied_proof.knowledge_product_proof.product_proof.commit_beta": "s151 s152",
        ".r1cs_satisfied_proof.knowledge_product_proof.product_proof.commit_delta": "s131 s151 s153",
        ".r1cs_satisfied_proof.knowledge_product_proof.product_proof.z[0]": "s149",
        ".r1cs_satisfied_proof.knowledge_product_proof.product_proof.z[1]": "s131 s150",
        ".r1cs_satisfied_proof.knowledge_product_proof.product_proof.z[2]": "s151",
        ".r1cs_satisfied_proof.knowledge_product_proof.product_proof.z[3]": "s132 s152",
        ".r1cs_satisfied_proof.knowledge_product_proof.product_proof.z[4]": "s131 s134 s153",
        ".r1cs_satisfied_proof.sc1_eq_proof.alpha": "s185",
        ".r1cs_satisfied_proof.sc1_eq_proof.z": "s65 s133 s134 s185",
        ".r1cs_satisfied_proof.sc2_eq_proof.alpha": "s310",
        ".r1cs_satisfied_proof.sc2_eq_proof.z": "s210 s258 s310",
        ".r1cs_satisfied_proof.commit_ry": "s258",
    },
    # s48=commitments.rs:29 s64=prover.rs:447 s65=prover.rs:448 s116=prover.rs:790 s117=prover.rs:793 s122=prover.rs:799 s209=prover.rs:610
    # s210=prover.rs:611 s241=prover.rs:790 s242=prover.rs:793 s247=prover.rs:799 s269=prover.rs:1006 s270=prover.rs:1007 s265=prover.rs:1001
    # s266=prover.rs:1002 s267=prover.rs:1003 s258=prover.rs:381 s131=prover.rs:286 s132=prover.rs:287 s133=prover.rs:288 s134=prover.rs:289
    # s136=prover.rs:835 s137=prover.rs:836 s149=prover.rs:875 s150=prover.rs:876 s151=prover.rs:877 s152=prover.rs:878 s153=prover.rs:879
    # s185=prover.rs:940 s310=prover.rs:940
    witness='circuit\\.(x|y)',
    public=".r.0[*] .r.1[*]",
    exempt="",
)

SECRET["spartan_snark_prove"] = dict(
    root="root_spartan_snark_prove",
    lits={'.r1cs_satisfied_proof.knowledge_product_proof.product_proof.z': 5},
    leaves={
        ".r1cs_satisfied_proof.commit_witness[*]": "s72*1",
        ".r1cs_satisfied_proof.proof_one.comm_polys[*]": "s88*1",
        ".r1cs_satisfied_proof.proof_one.comm_evals[*]": "s89*1",
        ".r1cs_satisfied_proof.proof_one.proofs[*].d_commit": "s140*1 s141*1",
        ".r1cs_satisfied_proof.proof_one.proofs[*].dot_cd_commit": "s140*1 s146*1",
        ".r1cs_satisfied_proof.proof_one.proofs[*].z[*]": "s140*2",
        ".r1cs_satisfied_proof.proof_one.proofs[*].z_delta": "s88*1 s141*1",
        ".r1cs_satisfied_proof.proof_one.proofs[*].z_beta": "s89*1 s146*1",
        ".r1cs_satisfied_proof.proof_two.comm_polys[*]": "s233*1",
        ".r1cs_satisfied_proof.proof_two.comm_evals[*]": "s234*1",
        ".r1cs_satisfied_proof.proof_two.proofs[*].d_commit": "s265*1 s266*1",
        ".r1cs_satisfied_proof.proof_two.proofs[*].dot_cd_commit": "s265*1 s271*1",
        ".r1cs_satisfied_proof.proof_two.proofs[*].z[*]": "s265*2",
        ".r1cs_satisfied_proof.proof_two.proofs[*].z_delta": "s233*1 s266*1",
        ".r1cs_satisfied_proof.proof_two.proofs[*].z_beta": "s234*1 s271*1",
        ".r1cs_satisfied_proof.product_proof.inner_product_proof.l_vec[*]": "s293*1",
        ".r1cs_satisfied_proof.product_proof.inner_product_proof.r_vec[*]": "s294*1",
        ".r1cs_satisfied_proof.product_proof.delta": "s289 s290",
        ".r1cs_satisfied_proof.product_proof.beta": "s289 s291",
        ".r1cs_satisfied_proof.product_proof.z1": "s289",
        ".r1cs_satisfied_proof.product_proof.z2": "s282 s290 s291 s293 s294",
        ".r1cs_satisfied_proof.knowledge_product_commit.va_commit": "s155",
        ".r1cs_satisfied_proof.knowledge_product_commit.vb_commit": "s156",
        ".r1cs_satisfied_proof.knowledge_product_commit.vc_commit": "s157",
        ".r1cs_satisfied_proof.knowledge_product_commit.prod_commit": "s158",
        ".r1cs_satisfied_proof.knowledge_product_proof.knowledge_proof.t_commit": "s160 s161",
        ".r1cs_satisfied_proof.knowledge_product_proof.knowledge_proof.z1": "s160",
        ".r1cs_satisfied_proof.knowledge_product_proof.knowledge_proof.z2": "s157 s161",
        ".r1cs_satisfied_proof.knowledge_product_proof.product_proof.commit_alpha": "s173 s174",
        ".r1cs_satisfied_proof.knowledge_product_proof.product_proof.commit_beta": "s175 s176",
        ".r1cs_satisfied_proof.knowledge_product_proof.product_proof.commit_delta": "s155 s175 s177",
        ".r1cs_satisfied_proof.knowledge_product_proof.product_proof.z[0]": "s173",
        ".r1cs_satisfied_proof.knowledge_product_proof.product_proof.z[1]": "s155 s174",
        ".r1cs_satisfied_proof.knowledge_product_proof.product_proof.z[2]": "s175",
        ".r1cs_satisfied_proof.knowledge_product_proof.product_proof.z[3]": "s156 s176",
        ".r1cs_satisfied_proof.knowledge_product_proof.product_proof.z[4]": "s155 s158 s177",
        ".r1cs_satisfied_proof.sc1_eq_proof.alpha": "s209",
        ".r1cs_satisfied_proof.sc1_eq_proof.z": "s89 s157 s158 s209",
        ".r1cs_satisfied_proof.sc2_eq_proof.alpha": "s334",
        ".r1cs_satisfied_proof.sc2_eq_proof.z": "s234 s282 s334",
        ".r1cs_satisfied_proof.commit_ry": "s282",
        ".r1cs_evals_proof.hash_layer_proof.proof_derefs.inner_product_proof.l_vec[*]": "s598*1",
        ".r1cs_evals_proof.hash_layer_proof.proof_derefs.inner_product_proof.r_vec[*]": "s599*1",
        ".r1cs_evals_proof.hash_layer_proof.proof_derefs.delta": "s594 s595",
        ".r1cs_evals_proof.hash_layer_proof.proof_derefs.beta": "s594 s596",
        ".r1cs_evals_proof.hash_layer_proof.proof_derefs.z1": "s594",
        ".r1cs_evals_proof.hash_layer_proof.proof_derefs.z2": "s595 s596 s598 s599",
        ".r1cs_evals_proof.hash_layer_proof.proof_ops.inner_product_proof.l_vec[*]": "s674*1",
        ".r1cs_evals_proof.hash_layer_proof.proof_ops.inner_product_proof.r_vec[*]": "s675*1",
        ".r1cs_evals_proof.hash_layer_proof.proof_ops.delta": "s670 s671",
        ".r1cs_evals_proof.hash_layer_proof.proof_ops.beta": "s670 s672",
        ".r1cs_evals_proof.hash_layer_proof.proof_ops.z1": "s670",
        ".r1cs_evals_proof.hash_layer_proof.proof_ops.z2": "s671 s672 s674 s675",
        ".r1cs_evals_proof.hash_layer_proof.proof_mem.inner_product_proof.l_vec[*]": "s738*1",
        ".r1cs_evals_proof.hash_layer_proof.proof_mem.inner_product_proof.r_vec[*]": "s739*1",
        ".r1cs_evals_proof.hash_layer_proof.proof_mem.delta": "s734 s735",
        ".r1cs_evals_proof.hash_layer_proof.proof_mem.beta": "s734 s736",
        ".r1cs_evals_proof.hash_layer_proof.proof_mem.z1": "s734",
        ".r1cs_evals_proof.hash_layer_proof.proof_mem.z2": "s735 s736 s738 s739",
    },
    # s72=commitments.rs:29 s88=prover.rs:447 s89=prover.rs:448 s140=prover.rs:790 s141=prover.rs:793 s146=prover.rs:799 s233=prover.rs:610
    # s234=prover.rs:611 s265=prover.rs:790 s266=prover.rs:793 s271=prover.rs:799 s293=prover.rs:1006 s294=prover.rs:1007 s289=prover.rs:1001
    # s290=prover.rs:1002 s291=prover.rs:1003 s282=prover.rs:381 s155=prover.rs:286 s156=prover.rs:287 s157=prover.rs:288 s158=prover.rs:289
    # s160=prover.rs:835 s161=prover.rs:836 s173=prover.rs:875 s174=prover.rs:876 s175=prover.rs:877 s176=prover.rs:878 s177=prover.rs:879
    # s209=prover.rs:940 s334=prover.rs:940 s598=prover.rs:1006 s599=prover.rs:1007 s594=prover.rs:1001 s595=prover.rs:1002 s596=prover.rs:1003
    # s674=prover.rs:1006 s675=prover.rs:1007 s670=prover.rs:1001 s671=prover.rs:1002 s672=prover.rs:1003 s738=prover.rs:1006 s739=prover.rs:1007
    # s734=prover.rs:1001 s735=prover.rs:1002 s736=prover.rs:1003
    witness='circuit\\.(x|y)',
    public=".matrix_evals.0 .matrix_evals.1 .matrix_evals.2 .r1cs_evals_proof.prod_layer_proof.proof_memory.layers_proof[*].polys[*] "
           ".r1cs_evals_proof.prod_layer_proof.proof_memory.layers_proof[*].claim_prod_left[*] "
           ".r1cs_evals_proof.prod_layer_proof.proof_memory.layers_proof[*].claim_prod_right[*] "
           ".r1cs_evals_proof.prod_layer_proof.proof_memory.claim_dotp.0[*] .r1cs_evals_proof.prod_layer_proof.proof_memory.claim_dotp.1[*] "
           ".r1cs_evals_proof.prod_layer_proof.proof_memory.claim_dotp.2[*] .r1cs_evals_proof.prod_layer_proof.proof_ops.layers_proof[*].polys[*] "
           ".r1cs_evals_proof.prod_layer_proof.proof_ops.layers_proof[*].claim_prod_left[*] "
           ".r1cs_evals_proof.prod_layer_proof.proof_ops.layers_proof[*].claim_prod_right[*] .r1cs_evals_proof.prod_layer_proof.proof_ops.claim_dotp.0[*] "
           ".r1cs_evals_proof.prod_layer_proof.proof_ops.claim_dotp.1[*] .r1cs_evals_proof.prod_layer_proof.proof_ops.claim_dotp.2[*] "
           ".r1cs_evals_proof.prod_layer_proof.eval_dotp.0[*] .r1cs_evals_proof.prod_layer_proof.eval_dotp.1[*] "
           ".r1cs_evals_proof.prod_layer_proof.eval_row.0 .r1cs_evals_proof.prod_layer_proof.eval_row.1[*] "
           ".r1cs_evals_proof.prod_layer_proof.eval_row.2[*] .r1cs_evals_proof.prod_layer_proof.eval_row.3 .r1cs_evals_proof.prod_layer_proof.eval_col.0 "
           ".r1cs_evals_proof.prod_layer_proof.eval_col.1[*] .r1cs_evals_proof.prod_layer_proof.eval_col.2[*] "
           ".r1cs_evals_proof.prod_layer_proof.eval_col.3 .r1cs_evals_proof.hash_layer_proof.evals_derefs.0[*] "
           ".r1cs_evals_proof.hash_layer_proof.evals_derefs.1[*] .r1cs_evals_proof.hash_layer_proof.evals_row.0[*] "
           ".r1cs_evals_proof.hash_layer_proof.evals_row.1[*] .r1cs_evals_proof.hash_layer_proof.evals_row.2 "
           ".r1cs_evals_proof.hash_layer_proof.evals_col.0[*] .r1cs_evals_proof.hash_layer_proof.evals_col.1[*] "
           ".r1cs_evals_proof.hash_layer_proof.evals_col.2 .r1cs_evals_proof.hash_layer_proof.evals_val[*] .r1cs_evals_proof.derefs_commit[*]",
    exempt="",
)

SECRET["libra_zk_prove"] = dict(
    root="root_libra_zk_prove",
    lits={'.0.proofs[*].prod_proof.z': 5},
    leaves={
        ".0.comm_witness[*]": "s34*1",
        ".0.proofs[*].proof_phase_one.comm_polys[*]": "s58*2",
        ".0.proofs[*].proof_phase_one.comm_evals[*]": "s59*2",
        ".0.proofs[*].proof_phase_one.proofs[*].d_commit": "s99*2 s100*2",
        ".0.proofs[*].proof_phase_one.proofs[*].dot_cd_commit": "s99*2 s105*2",
        ".0.proofs[*].proof_phase_one.proofs[*].z[*]": "s99*3",
        ".0.proofs[*].proof_phase_one.proofs[*].z_delta": "s58*2 s100*2",
        ".0.proofs[*].proof_phase_one.proofs[*].z_beta": "s59*2 s105*2",
        ".0.proofs[*].proof_phase_two.comm_polys[*]": "s132*2",
        ".0.proofs[*].proof_phase_two.comm_evals[*]": "s133*2",
        ".0.proofs[*].proof_phase_two.proofs[*].d_commit": "s169*2 s170*2",
        ".0.proofs[*].proof_phase_two.proofs[*].dot_cd_commit": "s169*2 s175*2",
        ".0.proofs[*].proof_phase_two.proofs[*].z[*]": "s169*3",
        ".0.proofs[*].proof_phase_two.proofs[*].z_delta": "s132*2 s170*2",
        ".0.proofs[*].proof_phase_two.proofs[*].z_beta": "s133*2 s175*2",
        ".0.proofs[*].comm_x": "s114*1",
        ".0.proofs[*].comm_y": "s184*1",
        ".0.proofs[*].comm_z": "s189*1",
        ".0.proofs[*].prod_proof.comm_alpha": "s203*1 s204*1",
        ".0.proofs[*].prod_proof.comm_beta": "s205*1 s206*1",
        ".0.proofs[*].prod_proof.comm_delta": "s114*1 s205*1 s207*1",
        ".0.proofs[*].prod_proof.z[0]": "s203*1",
        ".0.proofs[*].prod_proof.z[1]": "s114*1 s204*1",
        ".0.proofs[*].prod_proof.z[2]": "s205*1",
        ".0.proofs[*].prod_proof.z[3]": "s184*1 s206*1",
        ".0.proofs[*].prod_proof.z[4]": "s114*1 s189*1 s207*1",
        ".0.proofs[*].eq_proof.alpha": "s223*1",
        ".0.proofs[*].eq_proof.z": "s114*1 s133*1 s184*1 s189*1 s223*1",
        ".0.prod_proof0.bullet_reduce_proof.l_vec[*]": "s257*1",
        ".0.prod_proof0.bullet_reduce_proof.r_vec[*]": "s258*1",
        ".0.prod_proof0.delta": "s253 s255",
        ".0.prod_proof0.beta": "s253 s254",
        ".0.prod_proof0.z1": "s253",
        ".0.prod_proof0.z2": "s239 s254 s255 s257 s258",
        ".0.comm_y0": "s239",
        ".0.eq_proof0.alpha": "s306",
        ".0.eq_proof0.z": "s239 s306",
        ".0.prod_proof1.bullet_reduce_proof.l_vec[*]": "s336*1",
        ".0.prod_proof1.bullet_reduce_proof.r_vec[*]": "s337*1",
        ".0.prod_proof1.delta": "s332 s334",
        ".0.prod_proof1.beta": "s332 s333",
        ".0.prod_proof1.z1": "s332",
        ".0.prod_proof1.z2": "s318 s333 s334 s336 s337",
        ".0.comm_y1": "s318",
        ".0.eq_proof1.alpha": "s385",
        ".0.eq_proof1.z": "s318 s385",
    },
    # s34=evaluate.rs:163 s58=sumcheck.rs:209 s59=sumcheck.rs:210 s99=sumcheck.rs:490 s100=sumcheck.rs:492 s105=sumcheck.rs:497
    # s132=sumcheck.rs:329 s133=sumcheck.rs:330 s169=sumcheck.rs:490 s170=sumcheck.rs:492 s175=sumcheck.rs:497 s114=libra_zk_linear_gkr.rs:113
    # s184=libra_zk_linear_gkr.rs:142 s189=libra_zk_linear_gkr.rs:152 s203=commitment.rs:140 s204=commitment.rs:141 s205=commitment.rs:142
    # s206=commitment.rs:143 s207=commitment.rs:144 s223=commitment.rs:28 s257=commitment.rs:352 s258=commitment.rs:352 s253=commitment.rs:348
    # s255=commitment.rs:350 s254=commitment.rs:349 s239=libra_zk_linear_gkr.rs:209 s306=commitment.rs:28 s336=commitment.rs:352
    # s337=commitment.rs:352 s332=commitment.rs:348 s334=commitment.rs:350 s333=commitment.rs:349 s318=libra_zk_linear_gkr.rs:233
    # s385=commitment.rs:28
    witness='witnesses',
    public="",
    exempt=".1[*]",
)

SECRET["hyrax_prove"] = dict(
    root="root_hyrax_prove",
    lits={'.0.proofs[*].prod_proof.z': 5},
    leaves={
        ".0.comm_witness[*]": "s34*1",
        ".0.proofs[*].prod_proof.comm_alpha": "s179*1 s180*1",
        ".0.proofs[*].prod_proof.comm_beta": "s181*1 s182*1",
        ".0.proofs[*].prod_proof.comm_delta": "s163*1 s181*1 s183*1",
        ".0.proofs[*].prod_proof.z[0]": "s179*1",
        ".0.proofs[*].prod_proof.z[1]": "s163*1 s180*1",
        ".0.proofs[*].prod_proof.z[2]": "s181*1",
        ".0.proofs[*].prod_proof.z[3]": "s164*1 s182*1",
        ".0.proofs[*].prod_proof.z[4]": "s163*1 s165*1 s183*1",
        ".0.proofs[*].comm_c": "s199*1 s200*1 s201*1 s202*1 s209*1 s210*1 s211*1 s222*1",
        ".0.proofs[*].comm_x": "s163*1",
        ".0.proofs[*].comm_y": "s164*1",
        ".0.proofs[*].comm_z": "s165*1",
        ".0.proofs[*].comm_polys[*]": "s58*2",
        ".0.proofs[*].comm_evals[*]": "s60*2",
        ".0.proofs[*].comm_deltas[*]": "s199*2 s200*2 s201*2 s202*2 s203*2 s209*2 s210*2 s211*2 s212*2",
        ".0.proofs[*].z_vec[*]": "s199*2 s200*2 s201*2 s202*2 s209*2 s210*2 s211*2",
        ".0.proofs[*].z_delta_vec[*]": "s58*2 s203*2 s212*2",
        ".0.proofs[*].zc": "s163*1 s164*1 s165*1 s222*1",
        ".0.prod_proof0.bullet_reduce_proof.l_vec[*]": "s252*1",
        ".0.prod_proof0.bullet_reduce_proof.r_vec[*]": "s253*1",
        ".0.prod_proof0.delta": "s248 s250",
        ".0.prod_proof0.beta": "s248 s249",
        ".0.prod_proof0.z1": "s248",
        ".0.prod_proof0.z2": "s237 s249 s250 s252 s253",
        ".0.comm_y0": "s237",
        ".0.eq_proof0.alpha": "s295",
        ".0.eq_proof0.z": "s237 s295",
        ".0.prod_proof1.bullet_reduce_proof.l_vec[*]": "s322*1",
        ".0.prod_proof1.bullet_reduce_proof.r_vec[*]": "s323*1",
        ".0.prod_proof1.delta": "s318 s320",
        ".0.prod_proof1.beta": "s318 s319",
        ".0.prod_proof1.z1": "s318",
        ".0.prod_proof1.z2": "s307 s319 s320 s322 s323",
        ".0.comm_y1": "s307",
        ".0.eq_proof1.alpha": "s365",
        ".0.eq_proof1.z": "s307 s365",
    },
    # s34=evaluate.rs:136 s179=commitment.rs:141 s180=commitment.rs:142 s181=commitment.rs:143 s182=commitment.rs:144 s163=zk_sumcheck_proof.rs:515
    # s183=commitment.rs:145 s164=zk_sumcheck_proof.rs:516 s165=zk_sumcheck_proof.rs:517 s199=zk_sumcheck_proof.rs:525
    # s200=zk_sumcheck_proof.rs:526 s201=zk_sumcheck_proof.rs:527 s202=zk_sumcheck_proof.rs:528 s209=zk_sumcheck_proof.rs:548
    # s210=zk_sumcheck_proof.rs:549 s211=zk_sumcheck_proof.rs:550 s222=zk_sumcheck_proof.rs:584 s58=zk_sumcheck_proof.rs:73
    # s60=zk_sumcheck_proof.rs:76 s203=zk_sumcheck_proof.rs:529 s212=zk_sumcheck_proof.rs:551 s252=commitment.rs:354 s253=commitment.rs:354
    # s248=commitment.rs:350 s250=commitment.rs:352 s249=commitment.rs:351 s237=hyrax_proof.rs:151 s295=commitment.rs:28 s322=commitment.rs:354
    # s323=commitment.rs:354 s318=commitment.rs:350 s320=commitment.rs:352 s319=commitment.rs:351 s307=hyrax_proof.rs:177 s365=commitment.rs:28
    witness='witnesses',
    public="",
    exempt=".0.proofs[*].comm_a0 .1[*][*]",
)

SECRET["groth16_setup"] = dict(
    root="root_groth16_setup",
    no_scalars=True,
    leaves={
        ".vk.alpha_g1": "s3 s62",
        ".vk.beta_g2": "s4 s63",
        ".vk.gamma_g2": "s5 s63",
        ".vk.delta_g2": "s6 s63",
        ".vk.gamma_abc_g1[*]": "s3 s4 s5 s54 s62",
        ".beta_g1": "s4 s62",
        ".delta_g1": "s6 s62",
        ".a_query[*]": "s54 s62",
        ".b_g1_query[*]": "s54 s62",
        ".b_g2_query[*]": "s54 s63",
        ".h_query[*]": "s6 s54 s62",
        ".l_query[*]": "s3 s4 s6 s54 s62",
    },
    # s3=generator.rs:28 s62=generator.rs:201 s4=generator.rs:29 s63=generator.rs:202 s5=generator.rs:30 s6=generator.rs:31 s54=generator.rs:168
    public="",
    exempt="",
)

SECRET["marlin_setup"] = dict(
    root="root_marlin_setup",
    no_scalars=True,
    leaves={
        ".powers_of_g[*]": "s5 s6",
        ".powers_of_gamma_g[*]": "s5 s7",
        ".h": "s8",
        ".beta_h": "s5 s8",
        ".prepared_h": "s8",
        ".prepared_beta_h": "s5 s8",
    },
    # s5=kzg10.rs:28 s6=kzg10.rs:29 s7=kzg10.rs:30 s8=kzg10.rs:31
    public="",
    exempt="",
)

SECRET["asvc_keygen"] = dict(
    root="root_asvc_keygen",
    no_scalars=True,
    leaves={
        ".proving_key.powers_of_g1[*]": "s3 s4",
        ".proving_key.l_of_g1[*]": "s3 s4",
        ".proving_key.update_keys[*].ai": "s3 s4",
        ".proving_key.update_keys[*].ui": "s3 s4",
        ".verification_key.powers_of_g1[*]": "s3 s4",
        ".verification_key.powers_of_g2[*]": "s3 s5",
        ".verification_key.a": "s3 s4",
    },
    # s3=lib.rs:81 s4=lib.rs:82 s5=lib.rs:83
    public="",
    exempt="",
)

SECRET["libra_setup"] = dict(
    root="root_libra_setup",
    no_scalars=True,
    leaves={
        ".sc_params.gen_1.generators[*]": "s8",
        ".sc_params.gen_1.h": "s7",
        ".sc_params.gen_3.generators[*]": "s12*1",
        ".sc_params.gen_3.h": "s13",
        ".sc_params.gen_4.generators[*]": "s16*1",
        ".sc_params.gen_4.h": "s17",
        ".pc_params.gen_n.generators[*]": "s6*1",
        ".pc_params.gen_n.h": "s7",
        ".pc_params.gen_1.generators[*]": "s8",
        ".pc_params.gen_1.h": "s7",
    },
    # s8=params.rs:55 s7=params.rs:103 s12=params.rs:101 s13=params.rs:103 s16=params.rs:101 s17=params.rs:103 s6=params.rs:101
    public="",
    exempt=".sc_params.gen_1.n .sc_params.gen_3.n .sc_params.gen_4.n .pc_params.n .pc_params.gen_n.n .pc_params.gen_1.n",
)

SECRET["hyrax_setup"] = dict(
    root="root_hyrax_setup",
    no_scalars=True,
    leaves={
        ".sc_params.gen_1.generators[*]": "s8",
        ".sc_params.gen_1.h": "s7",
        ".sc_params.gen_3.generators[*]": "s12*1",
        ".sc_params.gen_3.h": "s13",
        ".sc_params.gen_4.generators[*]": "s16*1",
        ".sc_params.gen_4.h": "s17",
        ".pc_params.gen_n.generators[*]": "s6*1",
        ".pc_params.gen_n.h": "s7",
        ".pc_params.gen_1.generators[*]": "s8",
        ".pc_params.gen_1.h": "s7",
    },
    # s8=params.rs:80 s7=params.rs:103 s12=params.rs:101 s13=params.rs:103 s16=params.rs:101 s17=params.rs:103 s6=params.rs:101
    public="",
    exempt=".sc_params.gen_1.n .sc_params.gen_3.n .sc_params.gen_4.n .pc_params.n .pc_params.gen_n.n .pc_params.gen_1.n",
)

SECRET["spartan_nizk_setup"] = dict(
    root="root_spartan_nizk_setup",
    no_scalars=True,
    leaves={
        ".params.r1cs_satisfied_params.pc_params.gen_n.generators[*]": "s69*1",
        ".params.r1cs_satisfied_params.pc_params.gen_n.h": "s70",
        ".params.r1cs_satisfied_params.pc_params.gen_1.generators[*]": "s71",
        ".params.r1cs_satisfied_params.pc_params.gen_1.h": "s70",
        ".params.r1cs_satisfied_params.sc_params.gen_1.generators[*]": "s71",
        ".params.r1cs_satisfied_params.sc_params.gen_1.h": "s70",
        ".params.r1cs_satisfied_params.sc_params.gen_3.generators[*]": "s74*1",
        ".params.r1cs_satisfied_params.sc_params.gen_3.h": "s75",
        ".params.r1cs_satisfied_params.sc_params.gen_4.generators[*]": "s76*1",
        ".params.r1cs_satisfied_params.sc_params.gen_4.h": "s77",
    },
    # s69=setup.rs:87 s70=setup.rs:89 s71=setup.rs:92 s74=setup.rs:113 s75=setup.rs:115 s76=setup.rs:121 s77=setup.rs:123
    public="",
    exempt=".params.r1cs_satisfied_params.pc_params.n .params.r1cs_satisfied_params.pc_params.gen_n.n .params.r1cs_satisfied_params.pc_params.gen_1.n "
           ".params.r1cs_satisfied_params.sc_params.gen_1.n .params.r1cs_satisfied_params.sc_params.gen_3.n "
           ".params.r1cs_satisfied_params.sc_params.gen_4.n .params.r1cs_satisfied_params.n .r1cs.num_inputs .r1cs.num_aux .r1cs.num_constraints "
           ".r1cs.a_matrix[*][*].0 .r1cs.a_matrix[*][*].1 .r1cs.b_matrix[*][*].0 .r1cs.b_matrix[*][*].1 .r1cs.c_matrix[*][*].0 .r1cs.c_matrix[*][*].1",
)

SECRET["spartan_snark_setup"] = dict(
    root="root_spartan_snark_setup",
    no_scalars=True,
    leaves={
        ".params.r1cs_eval_params.ops_params.gen_n.generators[*]": "s80*1",
        ".params.r1cs_eval_params.ops_params.gen_n.h": "s81",
        ".params.r1cs_eval_params.ops_params.gen_1.generators[*]": "s82",
        ".params.r1cs_eval_params.ops_params.gen_1.h": "s81",
        ".params.r1cs_eval_params.mem_params.gen_n.generators[*]": "s84*1",
        ".params.r1cs_eval_params.mem_params.gen_n.h": "s85",
        ".params.r1cs_eval_params.mem_params.gen_1.generators[*]": "s86",
        ".params.r1cs_eval_params.mem_params.gen_1.h": "s85",
        ".params.r1cs_eval_params.derefs_params.gen_n.generators[*]": "s88*1",
        ".params.r1cs_eval_params.derefs_params.gen_n.h": "s89",
        ".params.r1cs_eval_params.derefs_params.gen_1.generators[*]": "s90",
        ".params.r1cs_eval_params.derefs_params.gen_1.h": "s89",
        ".params.r1cs_satisfied_params.pc_params.gen_n.generators[*]": "s69*1",
        ".params.r1cs_satisfied_params.pc_params.gen_n.h": "s70",
        ".params.r1cs_satisfied_params.pc_params.gen_1.generators[*]": "s71",
        ".params.r1cs_satisfied_params.pc_params.gen_1.h": "s70",
        ".params.r1cs_satisfied_params.sc_params.gen_1.generators[*]": "s71",
        ".params.r1cs_satisfied_params.sc_params.gen_1.h": "s70",
        ".params.r1cs_satisfied_params.sc_params.gen_3.generators[*]": "s74*1",
        ".params.r1cs_satisfied_params.sc_params.gen_3.h": "s75",
        ".params.r1cs_satisfied_params.sc_params.gen_4.generators[*]": "s76*1",
        ".params.r1cs_satisfied_params.sc_params.gen_4.h": "s77",
        ".encode_comm.ops_commit[*]": "s80*1 s81",
        ".encode_comm.mem_commit[*]": "s84*1 s85",
    },
    # s80=setup.rs:87 s81=setup.rs:89 s82=setup.rs:92 s84=setup.rs:87 s85=setup.rs:89 s86=setup.rs:92 s88=setup.rs:87 s89=setup.rs:89
    # s90=setup.rs:92 s69=setup.rs:87 s70=setup.rs:89 s71=setup.rs:92 s74=setup.rs:113 s75=setup.rs:115 s76=setup.rs:121 s77=setup.rs:123
    public="",
    exempt=".params.r1cs_eval_params.ops_params.n .params.r1cs_eval_params.ops_params.gen_n.n .params.r1cs_eval_params.ops_params.gen_1.n "
           ".params.r1cs_eval_params.mem_params.n .params.r1cs_eval_params.mem_params.gen_n.n .params.r1cs_eval_params.mem_params.gen_1.n "
           ".params.r1cs_eval_params.derefs_params.n .params.r1cs_eval_params.derefs_params.gen_n.n .params.r1cs_eval_params.derefs_params.gen_1.n "
           ".params.r1cs_satisfied_params.pc_params.n .params.r1cs_satisfied_params.pc_params.gen_n.n .params.r1cs_satisfied_params.pc_params.gen_1.n "
           ".params.r1cs_satisfied_params.sc_params.gen_1.n .params.r1cs_satisfied_params.sc_params.gen_3.n "
           ".params.r1cs_satisfied_params.sc_params.gen_4.n .params.r1cs_satisfied_params.n .r1cs.num_inputs .r1cs.num_aux .r1cs.num_constraints "
           ".r1cs.a_matrix[*][*].0 .r1cs.a_matrix[*][*].1 .r1cs.b_matrix[*][*].0 .r1cs.b_matrix[*][*].1 .r1cs.c_matrix[*][*].0 .r1cs.c_matrix[*][*].1 "
           ".encode.row_addr_ts.addr_index[*][*] .encode.row_addr_ts.addrs[*][*] .encode.row_addr_ts.read_ts_list[*][*] .encode.row_addr_ts.audit_ts[*] "
           ".encode.col_addr_ts.addr_index[*][*] .encode.col_addr_ts.addrs[*][*] .encode.col_addr_ts.read_ts_list[*][*] .encode.col_addr_ts.audit_ts[*] "
           ".encode.val_list[*][*] .encode.ops_list[*] .encode.mem_list[*] .encode_comm.n .encode_comm.m",
)

