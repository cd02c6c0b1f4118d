#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing it)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LABEL = "static analysis: interprocedural label dataflow over rustc MIR (custom rustc driver + abstract interpreter)"
NOTE = ("Decides the dependence structure on every path of the current MIR, not the algebra: a wrong coefficient that keeps the same "
        "dependences is out of reach. Trusts rustc's MIR, the models of external crates and the assumption that protocol loops iterate.")
P = []


def prop(id, title, statement, text, why, files, mech, technique=LABEL, note=NOTE, over=("inputs",), observe=None):
    P.append(dict(id=id, title=title, statement=statement, text=text, why=why, files=files, mech=mech, technique=technique,
                  note=note, over=list(over), observe=observe))


NA = []


def na(id, title, statement, text, why, files, mech, reason, over=("inputs",)):
    NA.append((id, reason))
    prop(id, title, statement, text, why, files, mech, over=over)


ACC_WHY = ("The tests verify a handful of honest proofs and one or two wrong public inputs; a verifier that ignores a value or the result of a check "
           "still passes them. The claim is about every proof, key and statement an adversary can send.")
FS_WHY = ("An honest prover and verifier that both omit or reorder a message still agree, so every round-trip test passes; only an adaptive adversary, "
          "which the tests do not contain, notices.")
ZK_WHY = ("A proof without blinding, or with blinding reused, verifies exactly like a blinded one. No run of the tests looks at the distribution of proofs "
          "over the caller's randomness.")
K_WHY = "Keys with repeated or exposed trapdoors work perfectly in every round trip; the tests never look at how the elements of a key are related."

prop("S01", "Groth16 verification is decided by all of proof, statement and key",
     "The Groth16 verifier accepts only if the pairing equation holds, and that equation involves all three proof elements, every public input and every "
     "element of the verifying key. It also accepts only if the number of public inputs is the number the verifying key was made for. "
     "No path reaches acceptance without these comparisons having succeeded.",
     "every verifying key, proof and list of public inputs", ACC_WHY,
     ["groth16/src/verifier.rs", "groth16/src/lib.rs"],
     [("verify_proof, prepare_verifying_key", "groth16/src/verifier.rs")])
prop("S02", "Bulletproofs verification is decided by all of proof, statement and circuit",
     "The Bulletproofs circuit verifier accepts only if all of its checks succeed: the polynomial commitment check, the check that ties the committed vectors "
     "to the witness commitments, the inner-product argument over every round's pair of points, and the vector and round counts. Together these checks "
     "depend on every element of the proof, every generator, every public input and every circuit coefficient; no path accepts with one of them skipped or its result ignored.",
     "every proof, circuit, generator set and list of public inputs", ACC_WHY,
     ["bulletproofs/src/arithmetic_circuit.rs", "bulletproofs/src/inner_product_proof.rs"],
     [("verify_proof", "bulletproofs/src/arithmetic_circuit.rs"), ("inner product verify", "bulletproofs/src/inner_product_proof.rs")])
prop("S03", "Marlin verification is decided by all of proof, statement and index",
     "The Marlin verifier accepts only if both polynomial identity checks (outer and inner sumcheck) and the batched opening of every commitment succeed. "
     "These checks depend on every public input, every evaluation, commitment and opening proof in the proof, and every element of the index verifier key.",
     "every index, proof and list of public inputs", ACC_WHY,
     ["marlin/src/lib.rs", "marlin/src/ahp/verifier.rs", "marlin/src/pc"],
     [("verify_proof", "marlin/src/lib.rs"), ("verifier_equality_check", "marlin/src/ahp/verifier.rs"), ("batch_check", "marlin/src/pc")])
prop("S04", "PLONK verification is decided by all of proof, statement and key",
     "The PLONK verifier accepts only if the quotient identity check and the batched opening check both succeed. These checks depend on every public "
     "input, every commitment, evaluation and opening in the proof, and every commitment and wire-permutation coefficient in the verifier key.",
     "every verifier key, proof and list of public inputs", ACC_WHY,
     ["plonk/src/lib.rs", "plonk/src/ahp/verifier.rs"],
     [("verify", "plonk/src/lib.rs"), ("equality check", "plonk/src/ahp/verifier.rs")])
prop("S05", "Vector commitment openings and update keys are decided by all their parts",
     "Checking the positions of an aggregatable vector commitment accepts only if the pairing equation holds, and it depends on the commitment, every claimed "
     "value, every position, the proof and the verification key. Checking an update key accepts only if both of its pairing equations hold, over both parts of the update key and its position.",
     "every commitment, opening, position list and update key", ACC_WHY,
     ["asvc/src/lib.rs"], [("verify_pos, verify_upk", "asvc/src/lib.rs")])
prop("S06", "Spartan verification is decided by all of proof, statement and circuit",
     "Both Spartan verifiers (with the matrices in the clear, and with committed matrices) accept only if every sub-argument succeeds: each round of both sum-checks, "
     "the knowledge, product and equality proofs, the witness opening, and, for committed matrices, the memory-check and hash-layer arguments. "
     "Together these depend on every element of the proof, every public input and the circuit; no sub-result is ignored on any path, in any round.",
     "every proof, circuit, parameter set and list of public inputs", ACC_WHY,
     ["spartan/src/verify.rs", "spartan/src/inner_product.rs"],
     [("nizk/snark verify and their sub-verifiers", "spartan/src/verify.rs"), ("bullet_inner_product_verify", "spartan/src/inner_product.rs")])
prop("S07", "Libra verification is decided by all of proof, outputs, inputs and circuit",
     "The Libra verifiers, with and without zero knowledge, accept only if every check succeeds in every layer: each sum-check round, the evaluation of the layer's gates, "
     "the final input check, and for zero knowledge the product, equality and witness-opening proofs. Together these depend on every element of the proof, on the claimed outputs, on the inputs and on the circuit's gates.",
     "every proof, circuit, list of inputs and outputs", ACC_WHY,
     ["libra/src/libra_linear_gkr.rs", "libra/src/libra_zk_linear_gkr.rs", "libra/src/sumcheck.rs", "libra/src/commitment.rs"],
     [("verify", "libra/src/libra_linear_gkr.rs"), ("verify", "libra/src/libra_zk_linear_gkr.rs"), ("sum-check verifiers", "libra/src/sumcheck.rs")])
prop("S08", "Hyrax verification is decided by all of proof, outputs, inputs and circuit",
     "The Hyrax verifier accepts only if every check succeeds in every layer: the batched sum-check equation, the link to the previous layer's claim, the product proof, the equality proofs "
     "and the witness openings. Together these depend on every response and commitment of the proof, the claimed outputs, the inputs and the circuit's gates.",
     "every proof, circuit, list of inputs and outputs", ACC_WHY,
     ["hyrax/src/hyrax_proof.rs", "hyrax/src/zk_sumcheck_proof.rs", "hyrax/src/commitment.rs"],
     [("verify", "hyrax/src/hyrax_proof.rs"), ("sumcheck_verify", "hyrax/src/zk_sumcheck_proof.rs")])

F_STMT = ("In %s, every challenge the verifier uses depends on the whole statement (%s) and on every prover message that the protocol sends before it, in every round. "
          "The protocol's challenges are separate draws, and each is drawn only after the messages it has to follow. "
          "A round counts as sent only with as many messages as the verifier expects there.")
prop("F01", "Bulletproofs challenges are bound to statement and preceding messages",
     F_STMT % ("Bulletproofs", "generators, circuit matrices and public inputs"),
     "every proof and statement; every round of the inner-product argument", FS_WHY,
     ["bulletproofs/src/arithmetic_circuit.rs", "bulletproofs/src/inner_product_proof.rs"], [("verify_proof", "bulletproofs/src/arithmetic_circuit.rs")])
prop("F02", "Marlin challenges are bound to index, inputs and preceding messages",
     F_STMT % ("Marlin", "index verifier key and public inputs"),
     "every proof and statement", FS_WHY,
     ["marlin/src/lib.rs", "marlin/src/fs_rng.rs", "marlin/src/ahp/verifier.rs"], [("verify_proof", "marlin/src/lib.rs")])
prop("F03", "PLONK challenges are bound to public inputs and preceding messages",
     "In PLONK, every challenge the verifier uses depends on all public inputs and on every commitment and evaluation that the protocol sends before it. "
     "The protocol's challenges are separate draws, and each is drawn only after the messages it has to follow; "
     "the factors with which the openings of the polynomial commitments are combined depend, besides, on those openings, and a round counts as sent only with the expected number of commitments.",
     "every proof and list of public inputs", FS_WHY,
     ["plonk/src/lib.rs", "plonk/src/ahp/verifier.rs"], [("verify", "plonk/src/lib.rs")])
prop("F04", "Spartan challenges are bound to statement and preceding messages",
     F_STMT % ("Spartan, with clear and with committed matrices,", "circuit digest, parameters and public inputs"),
     "every proof and statement; every round and every layer", FS_WHY,
     ["spartan/src/verify.rs", "spartan/src/inner_product.rs"], [("verifiers", "spartan/src/verify.rs")])
prop("F05", "Libra challenges are bound to statement and preceding messages",
     F_STMT % ("Libra, with and without zero knowledge,", "circuit, inputs, claimed outputs and, with zero knowledge, parameters"),
     "every proof and statement; every round and every layer", FS_WHY,
     ["libra/src/libra_linear_gkr.rs", "libra/src/libra_zk_linear_gkr.rs", "libra/src/sumcheck.rs", "libra/src/commitment.rs"],
     [("verify", "libra/src/libra_zk_linear_gkr.rs")])
prop("F06", "Hyrax challenges are bound to statement and preceding messages",
     F_STMT % ("Hyrax", "circuit, parameters, inputs and claimed outputs"),
     "every proof and statement; every round and every layer", FS_WHY,
     ["hyrax/src/hyrax_proof.rs", "hyrax/src/zk_sumcheck_proof.rs", "hyrax/src/commitment.rs"], [("verify", "hyrax/src/hyrax_proof.rs")])

Z_STMT = ("Every commitment and response in a %s proof carries the blinding the scheme prescribes for it, drawn freshly from the random generator the caller passed in, "
          "one draw per element where a message is a list. Blindings that the scheme keeps independent are separate draws%s.")
prop("Z01", "Groth16 proofs are blinded with two fresh caller-supplied scalars",
     "In a Groth16 proof the first element carries one blinding scalar, the second another, and the third both. The two scalars are separate draws from the random generator the caller passed in.",
     "every circuit, witness and random generator", ZK_WHY, ["groth16/src/prover.rs"], [("create_random_proof, create_proof", "groth16/src/prover.rs")])
prop("Z02", "Bulletproofs messages carry their own fresh blinding",
     Z_STMT % ("Bulletproofs", ", and the generators of the proof are drawn the same way"),
     "every circuit, witness and random generator", ZK_WHY, ["bulletproofs/src/arithmetic_circuit.rs"], [("create_random_proof", "bulletproofs/src/arithmetic_circuit.rs")])
prop("Z03", "Spartan messages carry their own fresh blinding",
     Z_STMT % ("Spartan", "; the parts of the proof that carry none do not depend on the private witness"),
     "every circuit, witness and random generator; every round", ZK_WHY, ["spartan/src/prover.rs", "spartan/src/commitments.rs", "spartan/src/inner_product.rs"],
     [("create_nizk_proof, create_snark_proof", "spartan/src/prover.rs")])
prop("Z04", "Zero-knowledge Libra messages carry their own fresh blinding",
     Z_STMT % ("zero-knowledge Libra", ""),
     "every circuit, witness and random generator; every layer and round", ZK_WHY, ["libra/src/sumcheck.rs", "libra/src/commitment.rs", "libra/src/libra_zk_linear_gkr.rs"],
     [("prover", "libra/src/libra_zk_linear_gkr.rs")])
prop("Z05", "Hyrax messages carry their own fresh blinding",
     Z_STMT % ("Hyrax", ""),
     "every circuit, witness and random generator; every layer and round", ZK_WHY, ["hyrax/src/zk_sumcheck_proof.rs", "hyrax/src/commitment.rs", "hyrax/src/hyrax_proof.rs"],
     [("prover", "hyrax/src/hyrax_proof.rs")])
prop("K01", "Groth16 keys hide independent trapdoors drawn from the caller's randomness",
     "Each of the Groth16 setup's secrets (the evaluation point, alpha, beta, gamma and delta) and both group generators is a separate draw from the caller's random generator, and each element of the "
     "proving and verifying key depends on all the secrets the scheme puts in it. No key element is a scalar that depends on a secret.",
     "every circuit and random generator", K_WHY, ["groth16/src/generator.rs"], [("generate_random_parameters, generate_parameters", "groth16/src/generator.rs")])
prop("K02", "Polynomial-commitment keys hide independent trapdoors from caller randomness",
     "In the universal setup of Marlin and the key generation of the vector commitment, the secret point and the group generators are separate draws from the caller's random generator, every key element depends on the "
     "draws the scheme puts in it, and no key element is a scalar that depends on one.",
     "every size and random generator", K_WHY, ["marlin/src/pc/kzg10.rs", "asvc/src/lib.rs"], [("setup", "marlin/src/pc/kzg10.rs"), ("key_gen", "asvc/src/lib.rs")])
prop("K03", "Commitment generators are independent draws from the caller's randomness",
     "In the transparent setups of Libra, Hyrax and Spartan every commitment generator and every blinding generator is its own draw from the caller's random generator: no two positions of a vector, and no generator and its blinding base, share a draw.",
     "every size and random generator", K_WHY, ["libra/src/params.rs", "hyrax/src/params.rs", "spartan/src/setup.rs"],
     [("Parameters::new", "libra/src/params.rs"), ("Parameters::new", "hyrax/src/params.rs"), ("setup", "spartan/src/setup.rs")])

GADGET = "static analysis: abstract interpretation over rustc MIR extracting linear forms of the constraints, then a determination analysis of the constraint system"
GTRUTH = "static analysis: abstract interpretation over rustc MIR extracting exact constraints per operand kind, decided by exhaustive case distinction over the operands"
GPACK = "static analysis: abstract interpretation over rustc MIR with constant propagation of the packing weights"
GSHAPE = "static analysis: abstract interpretation over rustc MIR with control dependence of allocations and constraints"
GNOTE = ("Works on the constraints a gadget emits, not on witnesses. Coefficients are exact only where they are small integers or powers of two; others are 'non-zero' or "
         "unknown, so a wrong constant of a hash is out of reach. Loops are summarised by their first, a middle and the remaining iterations.")
C_WHY = ("Tests synthesise a circuit with an honest witness and check that it is satisfied. A missing or too weak constraint leaves it satisfied; only a dishonest witness, over all "
         "assignments of the circuit's variables, shows the difference.")
prop("C01", "Boolean gadgets force their outputs to the function of their inputs",
     "Every variable a bit-allocating gadget creates is constrained to be 0 or 1. For and, and-not, nor, xor, not, equality, choice and majority, and for every kind of operand (variable, negated "
     "variable, constant), the constraints emitted leave exactly one value for the output: the function's value.",
     "every kind and value of the operands and every assignment of the circuit's variables", C_WHY, ["gadgets/src/algebra/boolean.rs", "gadgets/src/algebra/uint32.rs"],
     [("AllocatedBit, Boolean", "gadgets/src/algebra/boolean.rs"), ("UInt32::alloc", "gadgets/src/algebra/uint32.rs")], technique=GTRUTH, note=GNOTE, over=("inputs",))
prop("C02", "Field, lookup and word gadgets determine every variable they allocate",
     "Once a gadget's inputs are fixed, the constraints of field allocation, public exposure, the non-zero test, the table lookups and the 32-bit word operations leave no choice for any other variable they "
     "allocate; their outputs depend on all inputs, tables enter as constants, and the bits of a sum are bits.",
     "every assignment of the circuit's variables", C_WHY, ["gadgets/src/algebra/fr.rs", "gadgets/src/lookup/table.rs", "gadgets/src/algebra/uint32.rs"],
     [("AllocatedFr", "gadgets/src/algebra/fr.rs"), ("lookups", "gadgets/src/lookup/table.rs"), ("UInt32", "gadgets/src/algebra/uint32.rs")], technique=GADGET, note=GNOTE)
prop("C03", "Hash gadgets determine their output from all input variables",
     "In the MiMC, Poseidon, Rescue and SHA-256 hash gadgets every variable other than the inputs is determined by the constraints, in every round, and the output variable depends on every input variable. "
     "The Poseidon and Rescue circuits tie preimage and public output together in a constraint.",
     "every assignment of the circuit's variables, every round", C_WHY,
     ["gadgets/src/hashes/mimc.rs", "gadgets/src/hashes/poseidon.rs", "gadgets/src/hashes/rescue.rs", "gadgets/src/hashes/sha256.rs"],
     [("mimc, hash_enforce", "gadgets/src/hashes/mimc.rs"), ("poseidon, hash_enforce", "gadgets/src/hashes/poseidon.rs"), ("rescue, hash_enforce", "gadgets/src/hashes/rescue.rs"),
      ("hash_enforce", "gadgets/src/hashes/sha256.rs")], technique=GADGET, note=GNOTE)
prop("C04", "Statement circuits enforce the statement they stand for",
     "The range proof, the Merkle membership proof and the command line tool's circuits leave the prover free only in the values of the statement's private inputs. A constraint over all of them remains that holds "
     "only if the statement does: A, B and 2^n with B - A positive; leaf, path and root; preimage and public image. No variable that the statement needs is left out of it.",
     "every assignment of the circuit's variables", C_WHY,
     ["gadgets/src/operator/rangeproof.rs", "gadgets/src/merkletree/cbmt_constraints.rs", "cli/src/circuits/mini.rs", "cli/src/circuits/hash.rs"],
     [("RangeProof", "gadgets/src/operator/rangeproof.rs"), ("set_membership", "gadgets/src/merkletree/cbmt_constraints.rs"), ("command line circuits", "cli/src/circuits")],
     technique=GADGET, note=GNOTE)
prop("C05", "The shape of a circuit does not depend on the witness",
     "Whether a gadget allocates a variable or emits a constraint never depends on the value of a witness or on whether a witness is present, and no coefficient of a constraint is taken from the witness, so that keys made without a witness fit the proofs made with one.",
     "every witness, present or absent", "The tests run setup and proof with one witness each; a circuit whose shape changes for another value, or only when the witness is missing, passes.",
     ["gadgets/src", "cli/src/circuits"], [("all gadgets", "gadgets/src"), ("command line circuits", "cli/src/circuits")], technique=GSHAPE,
     note="The steps of a Merkle path follow the index by design and sums of constants fold; these are listed exceptions.")
prop("C06", "Packed equalities keep every equality and never overlap",
     "The gadget that packs several equalities into one constraint loses none of them: each reaches a constraint with the same factor on both sides, equalities in one constraint occupy disjoint bits, and the bits in "
     "use never exceed what the field holds. Equalities still pending when the gadget goes out of scope are enforced.",
     "every sequence of equalities and widths", "The tests add a few equalities of honest values; a lost or overlapping equality is still satisfied by them.",
     ["gadgets/src/operator/multieq.rs"], [("enforce_equal, drop", "gadgets/src/operator/multieq.rs")], technique=GPACK,
     note="Decided for eight sequences of widths that take every branch and both sides of the capacity bound, with symbolic operands; other widths follow the same paths.", over=("inputs", "histories"))

EFF = "static analysis: effect query over the generic MIR of every function of the library crates (custom rustc driver)"
LIBFILES = ["groth16/src", "bulletproofs/src", "marlin/src", "plonk/src", "asvc/src", "spartan/src", "libra/src", "hyrax/src", "gadgets/src", "r1cs/src", "curve/src"]
prop("R01", "The library's only inputs are its arguments",
     "No function of the library crates takes randomness, time, environment, files, threads or shared mutable state from anywhere but its arguments, and no prover, "
     "verifier or setup seeds a generator with a constant. So a proof or key is drawn from the caller's generator alone, and verifying the same "
     "arguments again gives the same answer.",
     "every function of every library crate, every caller's generator", "A prover on a generator of its own, or a verifier that draws its own random factors, passes "
     "every test: the tests neither replay a generator nor look at where random values come from.",
     LIBFILES, [("create_random_proof", "groth16/src/prover.rs"), ("FiatShamirRng", "marlin/src/fs_rng.rs"), ("verify", "plonk/src/lib.rs")], technique=EFF,
     note="Reads every function's generic MIR, whether or not anything calls it; constants as seeds are found by the label analysis from the entry points of the proof systems. "
          "The order in which hash maps are iterated is not followed.", over=("inputs", "histories"))
prop("M01", "The library cannot break memory safety",
     "The library crates are safe Rust: none of their functions calls an unsafe function, dereferences a raw pointer or reaches a mutable static, so no input can make them "
     "read or write memory they do not own.",
     "every function of every library crate", "An out-of-bounds read that stays within the process goes unnoticed in any test that does not hit the exact length.",
     LIBFILES, [("forbid(unsafe_code)", "groth16/src/lib.rs")], technique=EFF,
     note="Looks at the MIR, not at attributes: calls of unsafe functions and raw mutable pointers, other than those that macros of the standard library expand to.")

V_STMT = ("The %s verifier%s returns an error or a rejection for every proof%s that does not verify, %s; it never aborts "
          "because a length is wrong, a value is missing or a claim fails. ")
V_WHY = ("The tests give verifiers proofs of the right shape. A proof with one element too few, or with a false claim, comes from an adversary, and an assertion, an index "
         "or an unwrap that such a proof reaches takes the process down.")
V_NOTE = ("Decides branches into panics, unwrapped options and results, indexing, slicing, and subtraction, shift and power of machine words, as far as they depend on what the adversary sends. "
          "Additions and multiplications of sizes, memory exhaustion and panics inside the external crates are not decided.")
prop("V01", "Groth16, Bulletproofs, Marlin, PLONK and ASVC verifiers reject, never abort",
     V_STMT % ("Groth16, Bulletproofs, Marlin, PLONK and vector commitment", "s", ", list of public inputs, opening and update key", "whatever its lists' lengths"),
     "every proof, list of public inputs and opening that the types allow", V_WHY,
     ["groth16/src/verifier.rs", "bulletproofs/src/arithmetic_circuit.rs", "bulletproofs/src/inner_product_proof.rs", "marlin/src/lib.rs", "marlin/src/ahp/verifier.rs", "plonk/src/lib.rs",
      "plonk/src/ahp/verifier.rs", "asvc/src/lib.rs"],
     [("verify_proof", "groth16/src/verifier.rs"), ("verify_proof", "bulletproofs/src/arithmetic_circuit.rs"), ("verify_proof", "marlin/src/lib.rs"), ("verify", "plonk/src/lib.rs"),
      ("verify_pos, verify_upk", "asvc/src/lib.rs")], note=V_NOTE)
prop("V02", "The Spartan verifiers reject malformed proofs, never abort",
     V_STMT % ("Spartan", ", with clear and with committed matrices,", " and list of public inputs", "whatever its lists' lengths"),
     "every proof and list of public inputs that the types allow", V_WHY,
     ["spartan/src/verify.rs", "spartan/src/inner_product.rs", "spartan/src/spark.rs"], [("verifiers", "spartan/src/verify.rs")], note=V_NOTE)
prop("V03", "The Libra and Hyrax verifiers reject malformed proofs, never abort",
     V_STMT % ("Libra and Hyrax", "s", ", list of inputs and list of claimed outputs", "whatever its lists' lengths"),
     "every proof, list of inputs and list of outputs that the types allow", V_WHY,
     ["libra/src/libra_linear_gkr.rs", "libra/src/libra_zk_linear_gkr.rs", "libra/src/sumcheck.rs", "libra/src/commitment.rs", "hyrax/src/hyrax_proof.rs",
      "hyrax/src/zk_sumcheck_proof.rs", "hyrax/src/commitment.rs"],
     [("verify", "libra/src/libra_zk_linear_gkr.rs"), ("verify", "hyrax/src/hyrax_proof.rs")], note=V_NOTE)

CONST = "static analysis: constants as rustc's compile-time evaluation gives them in MIR, checked against what follows from the group order or field"
prop("P01", "The scalar field constants of Curve25519 follow from the group order",
     "The modulus of the scalar field of Curve25519 is the order of the Ristretto group, and every other constant of the field (Montgomery constants, half of the modulus, odd part, "
     "two-adicity, capacity, generator, root of unity) is what follows from that modulus. So field arithmetic, inversion, square roots, random elements and "
     "domains work over the group the commitments live in.",
     "every use of the field", "A wrong constant that is used by one operation only (square roots, roots of unity, shaved bits) is met by no test, because no test uses that operation.",
     ["curve25519/src/fr.rs"], [("FrParameters", "curve25519/src/fr.rs")], technique=CONST,
     note="Complete for the constants named in the statement; it does not look at the arithmetic that uses them.", over=("configurations",))
prop("P02", "The sponge hashes use permutations with sound parameters",
     "Over BN254 and BLS12-381, the mixing matrix of Poseidon and of Rescue has no singular minor (it spreads every change over the whole state), every exponent of an S-box is coprime to "
     "the order of the multiplicative group (so that the S-box is a permutation), Rescue's two exponents are inverse to each other over BN254, and the "
     "round constants are distinct, non-zero and reduced. A parameter table with any of this broken makes the hash of the commitments and of the Merkle trees weak.",
     "every input of the hashes", "A hash with a degenerate matrix or a non-bijective S-box is as deterministic as a good one, and the gadgets use the same tables as the native "
     "code, so the tests, which compare the two, agree.",
     ["gadgets/src/hashes/poseidon.rs", "gadgets/src/hashes/rescue.rs"], [("MDS, round constants", "gadgets/src/hashes/poseidon.rs"), ("MDS, round constants, ALPH", "gadgets/src/hashes/rescue.rs")],
     technique=CONST, note="Well-formedness only: whether the constants are those of the papers cannot be told, as the repository gives no source for them.", over=("configurations",))


prop("E01", "What is written to bytes is what is read back",
     "Proofs, keys, parameters and curve points written in any of the three serialization modes are read back in that mode as the same value, part by part, with nothing left out. "
     "A tag that stands for no variant is an error, and only the unchecked mode reads group elements unchecked.",
     "every value of every type that is stored or sent, every mode", "The tests write and read a few types in one mode; a mode whose writer and reader disagree, or a part that comes back in another's place, is met only by "
     "the user of that mode.",
     ["curve25519/src/group.rs", "r1cs/src/lib.rs", "plonk/src/ahp/indexer/mod.rs", "groth16/src/lib.rs", "bulletproofs/src/arithmetic_circuit.rs", "spartan/src/data_structure.rs"],
     [("Curve25519Point", "curve25519/src/group.rs"), ("Index", "r1cs/src/lib.rs"), ("IndexInfo", "plonk/src/ahp/indexer/mod.rs")],
     technique="static analysis: abstract interpretation of the writing and reading functions' MIR, sequences of parts compared",
     note="Decides order, type, mode, place and tag of every part. Where a side loops, the number of repetitions is not compared; sizes reported in advance are not decided; the encodings of external types are trusted.",
     over=("inputs", "configurations"))

prop("B01", "Every variable and constraint of a circuit reaches the proof system",
     "The constraint systems that Groth16, Bulletproofs, Marlin and Spartan give to a circuit keep every term of every linear combination of every constraint (coefficient "
     "and variable) and the value of every variable, in proving as in key generation; the composer of PLONK keeps every wire, selector, public input and value, and enters every "
     "wire in the permutation. No constraint or term is dropped for any length or position.",
     "every circuit", "A dropped constraint makes proofs of false statements verify, while all honest proofs still do; a condition that drops it only for long constraints, certain "
     "variables or positions is not met by the small circuits of the tests.",
     ["groth16/src/lib.rs", "groth16/src/generator.rs", "groth16/src/prover.rs", "bulletproofs/src/lib.rs", "bulletproofs/src/arithmetic_circuit.rs", "marlin/src/ahp/constraint_systems.rs",
      "spartan/src/r1cs.rs", "spartan/src/prover.rs", "plonk/src/composer"],
     [("push_constraints, KeypairAssembly", "groth16/src/lib.rs"), ("IndexerConstraintSystem", "marlin/src/ahp/constraint_systems.rs"), ("R1CSInstance", "spartan/src/r1cs.rs"),
      ("Composer, Permutation", "plonk/src/composer/mod.rs")],
     technique="static analysis: abstract interpretation of the constraint systems' MIR for what their fields hold, and paths of the control-flow graphs around the storing calls",
     note="Decides what the constraint system holds when its methods return. What the provers and key generators do with it afterwards is the subject of K01 and S01-S08; the indices under which terms are stored are not compared.",
     over=("inputs", "configurations"))

prop("L01", "The command line tools trust only the setup, and keep secrets out of files",
     "zkp-verify hands the libraries' verifiers keys, parameters and circuits that come from the setup files or the program and never from the proof file, the proof and the public inputs of the "
     "proof file, and shows the verifier's own result. zkp-prove writes the proof and the public inputs, and neither writes nor prints anything else that depends on the private arguments of the circuit.",
     "every proof file and command line", "The tests do not run the tools. A verifier that takes its key or circuit from the file it judges accepts every file that brings a suitable one, "
     "and all honest files as well.",
     ["cli/src/zkp_verify.rs", "cli/src/zkp_prove.rs", "cli/src/setup.rs", "cli/src/circuits"], [("handle_scheme, main", "cli/src/zkp_verify.rs"), ("handle_scheme, main", "cli/src/zkp_prove.rs")],
     technique="static analysis: abstract interpretation of the binaries' MIR with labels for what comes in, up to the verifiers' arguments and to every write and print",
     note="Known finding: for Bulletproofs, generators and circuit come from the proof file. That the setup files are genuine is assumed.",
     over=("inputs",))

NOT = ["groth16/src", "bulletproofs/src", "marlin/src", "plonk/src", "spartan/src", "libra/src", "hyrax/src"]
na("N01", "Honest proofs verify",
   "For every circuit, every assignment that satisfies it and every randomness, the proof made with matching keys is accepted by the verifier of the same system.",
   "every satisfiable circuit, assignment and randomness", "The tests prove a few small circuits.", NOT, [("provers and verifiers", "groth16/src/prover.rs")],
   "Needs the equality of field and group values computed by two different algorithms over unbounded circuits; dependence, typestate and effect analyses cannot express it, and no abstract domain in reach decides polynomial identities over these loops.")
na("N02", "Verification equations have the coefficients of the schemes",
   "Each verification equation is exactly that of the published scheme, with every sign, exponent and index.",
   "every proof and statement", "Honest proofs satisfy variants of the equations as well.", NOT, [("verifiers", "plonk/src/ahp/verifier.rs")],
   "The label analysis sees which values enter an equation (S01-S08), not with which coefficient; tracking coefficients through loops over matrices and polynomials would need symbolic execution with an algebra solver, another family.")
na("N03", "Polynomial, multi-exponentiation and domain arithmetic is exact",
   "Products, quotients, evaluations, interpolations and multi-exponentiations equal their mathematical definition for every input length and value.",
   "every polynomial, vector and domain size", "The tests use a few sizes.", ["curve/src", "spartan/src/polynomial.rs", "libra/src/evaluate.rs"], [("quick_multiexp", "curve/src")],
   "A statement about computed values over unbounded lengths; most of it is inside external crates.")
na("N04", "Hash gadgets compute the native hash functions",
   "For every input, the output that a hash gadget's constraints force is the value that the native function of the same name returns.",
   "every preimage", "The tests compare a few values.", ["gadgets/src/hashes"], [("gadgets and native functions", "gadgets/src/hashes")],
   "Equality of two computations over the field for all inputs; C03 decides that the output is determined by the inputs, not which value it is.")
na("N05", "The sponges use the published constants",
   "Round constants, matrices and numbers of rounds of MiMC, Poseidon and Rescue are those of the published instances for the stated security level.",
   "every instance", "Gadget and native code share the tables.", ["gadgets/src/hashes"], [("tables", "gadgets/src/hashes/poseidon.rs")],
   "The repository holds no reference to compare with and there is no network; P02 decides what follows from the tables alone.")
na("N06", "Inputs and witness take the positions the layered circuits give them",
   "In Libra and Hyrax, prover and verifier place inputs, witness and padding at the same positions of the first layer, for all numbers of inputs and witnesses.",
   "every circuit shape and number of instances", "The tests use equal numbers of inputs and witnesses.", ["libra/src/circuit.rs", "hyrax/src/circuit.rs"], [("evaluate", "libra/src/circuit.rs")],
   "Index arithmetic relative to runtime lengths; vectors have one summary element in the analysis, so positions computed from lengths are out of reach. Three defects of this kind were found by reading and repaired.")
na("N07", "Proofs can be simulated",
   "The distribution of proofs of a zero-knowledge system depends on the statement only, not on the witness.",
   "every statement and pair of witnesses", "No test looks at distributions.", NOT, [("provers", "groth16/src/prover.rs")],
   "A statement about distributions; Z01-Z05 decide its structural part (which fresh, independent randomness every message carries), the algebra of the blinding is out of reach.")
na("N08", "Verification takes bounded time and memory",
   "The time and memory a verifier uses is bounded by a fixed function of the size of proof and statement, and machine words do not overflow on the way.",
   "every proof and statement", "The tests use small proofs.", NOT, [("verifiers", "libra/src/libra_linear_gkr.rs")],
   "Loop bounds and allocation sizes are runtime quantities (powers of sizes in keys and circuits); no bound on them is in the source.")
na("N09", "Parallel and sequential builds compute the same results",
   "With the parallel feature every function returns what it returns without it.",
   "every input, every schedule", "The tests run one configuration.", ["spartan/src", "libra/src", "hyrax/src"], [("parallel feature", "groth16/Cargo.toml")],
   "Equality of values computed by differently shaped reductions; both configurations are analysed by S, F, V and Z rules, and M01 and R01 exclude shared mutable state, but equality of the results is algebra.", over=("schedules", "configurations"))
na("N10", "Updates of vector commitments commute with committing anew",
   "A commitment and its openings updated with an update key equal those computed from the updated vector, and aggregated openings verify.",
   "every vector, position and sequence of updates", "The tests update one position.", ["asvc/src/lib.rs"], [("update_commit, update_proof, aggregate_proofs", "asvc/src/lib.rs")],
   "A homomorphism of group elements; which coefficients the update uses is not visible to a dependence analysis.", over=("inputs", "histories"))


with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["observe"]:
            a["observe_at"] = p["observe"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": a}) + "\n")
nas = dict(NA)
m = {
    "version": 1,
    "setup_cmd": "python3 engine/build.py && python3 engine/build.py parallel",
    "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                "technique": p["technique"], "level": "other", "level_note": p["note"]} for p in P if p["id"] not in nas],
    "not_applicable": [{"property": k, "reason": v} for k, v in NA],
    "notes": "Every check reads /repo's current source through rustc (facts cached by content under .build) and runs nothing of it.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
print(len(P), "properties,", len(NA), "not applicable")
