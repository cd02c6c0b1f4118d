//! Analysis roots.
//!
//! Nothing in this crate is ever executed.  It names concrete instances of the public
//! entry points of /repo so that the MIR exporter can resolve every call below them.
//! The parameter names of the `root_*` functions are the source labels of the analysis.
#![allow(dead_code, unused_variables, non_snake_case)]

pub mod proving {
    use ark_bls12_381::{Bls12_381, Fr};
    use ark_ff::{One, PrimeField};
    use ark_poly::univariate::DensePolynomial;
    use ark_poly_commit::marlin_pc::MarlinKZG10;
    use rand::rngs::ThreadRng as R;
    use zkp_r1cs::{ConstraintSynthesizer, ConstraintSystem, SynthesisError};

    type E = Bls12_381;
    type PC = MarlinKZG10<Bls12_381, DensePolynomial<Fr>>;
    type PlonkInst = zkp_plonk::Plonk<Fr, blake2::Blake2s, PC>;

    /// Smallest circuit with one public input and two witnesses.
    pub struct Circ<F: PrimeField> {
        pub x: Option<F>,
        pub y: Option<F>,
        pub z: Option<F>,
    }

    impl<F: PrimeField> ConstraintSynthesizer<F> for Circ<F> {
        fn generate_constraints<CS: ConstraintSystem<F>>(
            self,
            cs: &mut CS,
        ) -> Result<(), SynthesisError> {
            let x = cs.alloc(|| "x", || self.x.ok_or(SynthesisError::AssignmentMissing))?;
            let y = cs.alloc(|| "y", || self.y.ok_or(SynthesisError::AssignmentMissing))?;
            let z = cs.alloc_input(|| "z", || self.z.ok_or(SynthesisError::AssignmentMissing))?;
            cs.enforce(|| "c", |lc| lc + x, |lc| lc + y + (F::one(), CS::one()), |lc| lc + z);
            Ok(())
        }
    }

    // ---- groth16
    pub fn root_groth16_setup(circuit: Circ<Fr>, rng: &mut R) -> Result<zkp_groth16::Parameters<E>, SynthesisError> {
        zkp_groth16::generate_random_parameters::<E, _, _>(circuit, rng)
    }
    pub fn root_groth16_prove(params: &zkp_groth16::Parameters<E>, circuit: Circ<Fr>, rng: &mut R) -> Result<zkp_groth16::Proof<E>, SynthesisError> {
        zkp_groth16::create_random_proof::<E, _, _>(params, circuit, rng)
    }
    pub fn root_groth16_verify(vk: &zkp_groth16::VerifyKey<E>, proof: &zkp_groth16::Proof<E>, public_inputs: &[Fr]) -> Result<bool, SynthesisError> {
        let pvk = zkp_groth16::prepare_verifying_key(vk);
        zkp_groth16::verify_proof(&pvk, proof, public_inputs)
    }

    // ---- bulletproofs
    pub fn root_bulletproofs_prove(circuit: Circ<Fr>, rng: &mut R) -> Result<(zkp_bulletproofs::Generators<E>, zkp_bulletproofs::R1csCircuit<E>, zkp_bulletproofs::Proof<E>), SynthesisError> {
        zkp_bulletproofs::create_random_proof::<E, _, _>(circuit, rng)
    }
    pub fn root_bulletproofs_verify(gens: &zkp_bulletproofs::Generators<E>, proof: &zkp_bulletproofs::Proof<E>, r1cs: &zkp_bulletproofs::R1csCircuit<E>, public_inputs: &[Fr]) -> Result<bool, SynthesisError> {
        zkp_bulletproofs::verify_proof::<E>(gens, proof, r1cs, public_inputs)
    }

    // ---- marlin
    pub fn root_marlin_setup(max_degree: usize, rng: &mut R) -> Result<zkp_marlin::UniversalParams<E>, SynthesisError> {
        zkp_marlin::universal_setup::<E, _>(max_degree, rng)
    }
    pub fn root_marlin_index(srs: &zkp_marlin::UniversalParams<E>, circuit: Circ<Fr>) -> bool {
        zkp_marlin::index::<E, _>(srs, circuit).is_ok()
    }
    pub fn root_marlin_prove(ipk: &zkp_marlin::IndexProverKey<'_, E>, circuit: Circ<Fr>, rng: &mut R) -> Result<zkp_marlin::Proof<E>, SynthesisError> {
        zkp_marlin::create_random_proof::<E, _, _>(ipk, circuit, rng)
    }
    pub fn root_marlin_verify(ivk: &zkp_marlin::IndexVerifierKey<E>, proof: &zkp_marlin::Proof<E>, public_inputs: &[Fr]) -> Result<bool, SynthesisError> {
        zkp_marlin::verify_proof::<E>(ivk, proof, public_inputs)
    }

    // ---- plonk
    pub fn root_plonk_prove(pk: &zkp_plonk::ProverKey<Fr, PC>, cs: &zkp_plonk::Composer<Fr>, rng: &mut R) -> Option<zkp_plonk::Proof<Fr, PC>> {
        PlonkInst::prove(pk, cs, rng).ok()
    }
    pub fn root_plonk_setup(max_degree: usize, rng: &mut R) -> bool {
        PlonkInst::setup(max_degree, rng).is_ok()
    }
    pub fn root_plonk_verify(vk: &zkp_plonk::VerifierKey<Fr, PC>, public_inputs: &[Fr], proof: zkp_plonk::Proof<Fr, PC>) -> Result<bool, ()> {
        PlonkInst::verify(vk, public_inputs, proof).map_err(|_| ())
    }
    pub fn root_plonk_keygen(srs: &zkp_plonk::UniversalParams<Fr, PC>, cs: &zkp_plonk::Composer<Fr>, ks: [Fr; 4]) -> bool {
        PlonkInst::keygen(srs, cs, ks).is_ok()
    }

    // ---- asvc
    pub fn root_asvc_keygen(n: usize, rng: &mut R) -> Result<zkp_asvc::Parameters<E>, SynthesisError> {
        zkp_asvc::key_gen::<E, _>(n, rng)
    }
    pub fn root_asvc_commit(prk: &zkp_asvc::ProvingKey<E>, values: Vec<Fr>) -> Result<zkp_asvc::Commitment<E>, SynthesisError> {
        zkp_asvc::commit::<E>(prk, values)
    }
    pub fn root_asvc_prove_pos(prk: &zkp_asvc::ProvingKey<E>, values: Vec<Fr>, points: Vec<u32>) -> Result<zkp_asvc::Proof<E>, SynthesisError> {
        zkp_asvc::prove_pos::<E>(prk, values, points)
    }
    pub fn root_asvc_verify_pos(vrk: &zkp_asvc::VerificationKey<E>, commit: &zkp_asvc::Commitment<E>, point_values: Vec<Fr>, points: Vec<u32>, proof: &zkp_asvc::Proof<E>, omega: Fr) -> Result<bool, SynthesisError> {
        zkp_asvc::verify_pos::<E>(vrk, commit, point_values, points, proof, omega)
    }
    pub fn root_asvc_verify_upk(vrk: &zkp_asvc::VerificationKey<E>, point: u32, upk: &zkp_asvc::UpdateKey<E>, omega: Fr) -> Result<bool, SynthesisError> {
        zkp_asvc::verify_upk::<E>(vrk, point, upk, omega)
    }
    pub fn root_asvc_update_commit(commit: &zkp_asvc::Commitment<E>, delta: Fr, point: u32, upk: &zkp_asvc::UpdateKey<E>, omega: Fr, n: usize) -> Result<zkp_asvc::Commitment<E>, SynthesisError> {
        zkp_asvc::update_commit::<E>(commit, delta, point, upk, omega, n)
    }
    pub fn root_asvc_update_proof(proof: &zkp_asvc::Proof<E>, delta: Fr, point_i: u32, point_j: u32, upk_i: &zkp_asvc::UpdateKey<E>, upk_j: &zkp_asvc::UpdateKey<E>, omega: Fr, n: usize) -> Result<zkp_asvc::Proof<E>, SynthesisError> {
        zkp_asvc::update_proof::<E>(proof, delta, point_i, point_j, upk_i, upk_j, omega, n)
    }
    pub fn root_asvc_aggregate(points: Vec<u32>, proofs: Vec<zkp_asvc::Proof<E>>, omega: Fr) -> Result<zkp_asvc::Proof<E>, SynthesisError> {
        zkp_asvc::aggregate_proofs::<E>(points, proofs, omega)
    }

    // ---- spartan
    pub fn root_spartan_nizk_setup(circuit: Circ<Fr>, rng: &mut R) -> Result<zkp_spartan::nizk::Parameters<E>, SynthesisError> {
        zkp_spartan::nizk::generate_random_parameters::<E, _, _>(circuit, rng)
    }
    pub fn root_spartan_nizk_prove(pk: &zkp_spartan::nizk::ProveKey<E>, circuit: Circ<Fr>, rng: &mut R) -> Result<zkp_spartan::nizk::Proof<E>, SynthesisError> {
        let r1cs_hash = pk.r1cs.r1cs_to_hash();
        let params_hash = pk.params.param_to_hash();
        zkp_spartan::nizk::create_random_proof(pk, circuit, r1cs_hash, params_hash, rng)
    }
    pub fn root_spartan_nizk_verify(vk: &zkp_spartan::nizk::VerifyKey<E>, proof: &zkp_spartan::nizk::Proof<E>, public_inputs: &[Fr]) -> Result<bool, SynthesisError> {
        let r1cs_hash = vk.r1cs.r1cs_to_hash();
        let params_hash = vk.params.param_to_hash();
        zkp_spartan::nizk::verify_proof(vk, proof, public_inputs, r1cs_hash, params_hash)
    }
    pub fn root_spartan_snark_setup(circuit: Circ<Fr>, rng: &mut R) -> Result<zkp_spartan::snark::Parameters<E>, SynthesisError> {
        zkp_spartan::snark::generate_random_parameters::<E, _, _>(circuit, rng)
    }
    pub fn root_spartan_snark_prove(pk: &zkp_spartan::snark::ProveKey<E>, circuit: Circ<Fr>, rng: &mut R) -> Result<zkp_spartan::snark::Proof<E>, SynthesisError> {
        let r1cs_hash = pk.r1cs.r1cs_to_hash();
        let params_hash = pk.params.param_to_hash();
        let encode_hash = pk.encode_comm.encode_to_hash();
        zkp_spartan::snark::create_random_proof(pk, circuit, r1cs_hash, params_hash, encode_hash, rng)
    }
    pub fn root_spartan_snark_verify(vk: &zkp_spartan::snark::VerifyKey<E>, proof: &zkp_spartan::snark::Proof<E>, public_inputs: &[Fr]) -> Result<bool, SynthesisError> {
        let r1cs_hash = vk.r1cs.r1cs_to_hash();
        let params_hash = vk.params.param_to_hash();
        let encode_hash = vk.encode_comm.encode_to_hash();
        zkp_spartan::snark::verify_proof(vk, proof, public_inputs, r1cs_hash, params_hash, encode_hash)
    }

    // ---- libra
    use zkp_libra::circuit::Circuit as LCircuit;
    use zkp_libra::libra_linear_gkr::LinearGKRProof;
    use zkp_libra::libra_zk_linear_gkr::ZKLinearGKRProof;
    use zkp_libra::params::Parameters as LParams;
    pub fn root_libra_setup(rng: &mut R, num: usize) -> LParams<E> {
        LParams::<E>::new(rng, num)
    }
    pub fn root_libra_prove(circuit: &LCircuit, inputs: &Vec<Fr>, witnesses: &Vec<Fr>) -> (LinearGKRProof<E>, Vec<Fr>) {
        let h = circuit.circuit_to_hash::<E>();
        LinearGKRProof::<E>::prover(circuit, inputs, witnesses, h)
    }
    pub fn root_libra_verify(proof: &LinearGKRProof<E>, circuit: &LCircuit, outputs: &Vec<Fr>, inputs: &Vec<Fr>) -> bool {
        let h = circuit.circuit_to_hash::<E>();
        proof.verify(circuit, outputs, inputs, h)
    }
    pub fn root_libra_zk_prove(params: &LParams<E>, circuit: &LCircuit, inputs: &Vec<Fr>, witnesses: &Vec<Fr>, rng: &mut R) -> (ZKLinearGKRProof<E>, Vec<Fr>) {
        let h = circuit.circuit_to_hash::<E>();
        let p = params.param_to_hash();
        ZKLinearGKRProof::<E>::prover(params, circuit, inputs, witnesses, h, p, rng)
    }
    pub fn root_libra_zk_verify(proof: &ZKLinearGKRProof<E>, params: &LParams<E>, circuit: &LCircuit, outputs: &Vec<Fr>, inputs: &Vec<Fr>) -> bool {
        let h = circuit.circuit_to_hash::<E>();
        let p = params.param_to_hash();
        proof.verify(params, circuit, outputs, inputs, h, p)
    }
    pub fn root_libra_evaluate(circuit: &LCircuit, inputs: &Vec<Fr>, witnesses: &Vec<Fr>) -> Option<Vec<Vec<Fr>>> {
        circuit.evaluate::<E>(inputs, witnesses).ok()
    }

    // ---- hyrax
    use zkp_hyrax::circuit::Circuit as HCircuit;
    use zkp_hyrax::hyrax_proof::HyraxProof;
    use zkp_hyrax::params::Parameters as HParams;
    pub fn root_hyrax_setup(rng: &mut R, num: usize) -> HParams<E> {
        HParams::<E>::new(rng, num)
    }
    pub fn root_hyrax_prove(params: &HParams<E>, witnesses: &Vec<Vec<Fr>>, inputs: &Vec<Vec<Fr>>, circuit: &HCircuit, n: usize, rng: &mut R) -> (HyraxProof<E>, Vec<Vec<Fr>>) {
        let h = circuit.circuit_to_hash::<E>();
        let p = params.param_to_hash();
        HyraxProof::<E>::prover(params, witnesses, inputs, circuit, h, p, n, rng)
    }
    pub fn root_hyrax_verify(proof: &HyraxProof<E>, params: &HParams<E>, outputs: &Vec<Vec<Fr>>, inputs: &Vec<Vec<Fr>>, circuit: &HCircuit) -> bool {
        let h = circuit.circuit_to_hash::<E>();
        let p = params.param_to_hash();
        proof.verify(params, outputs, inputs, circuit, h, p)
    }
    pub fn root_hyrax_evaluate(circuit: &HCircuit, inputs: &Vec<Fr>, witnesses: &Vec<Fr>) -> Option<Vec<Vec<Fr>>> {
        circuit.evaluate::<E>(inputs, witnesses).ok()
    }
}

pub mod codec;
pub mod cs;
pub mod gad;

/// The command line binaries, compiled as modules from their own sources.
#[path = "/repo/cli/src/setup.rs"]
pub mod cli_setup;
#[path = "/repo/cli/src/zkp_prove.rs"]
pub mod cli_prove;
#[path = "/repo/cli/src/zkp_verify.rs"]
pub mod cli_verify;
#[path = "/repo/cli/src/circuits/mod.rs"]
pub mod cli_circuits;

pub mod consts {
    use ark_ff::fields::{FftParameters, FpParameters};
    use ark_ff::BigInteger256 as B;
    use zkp_curve25519::FrParameters as P;

    pub fn root_curve25519_fr() -> ([B; 8], u64, [u32; 4]) {
        (
            [
                <P as FpParameters>::MODULUS,
                <P as FpParameters>::R,
                <P as FpParameters>::R2,
                <P as FpParameters>::GENERATOR,
                <P as FpParameters>::MODULUS_MINUS_ONE_DIV_TWO,
                <P as FpParameters>::T,
                <P as FpParameters>::T_MINUS_ONE_DIV_TWO,
                <P as FftParameters>::TWO_ADIC_ROOT_OF_UNITY,
            ],
            <P as FpParameters>::INV,
            [
                <P as FpParameters>::MODULUS_BITS,
                <P as FpParameters>::CAPACITY,
                <P as FpParameters>::REPR_SHAVE_BITS,
                <P as FftParameters>::TWO_ADICITY,
            ],
        )
    }
}
