//! Every type of /repo that is written to and read from bytes, at the top level of what users store and send.
use ark_bls12_381::{Bls12_381, Fr};
use ark_poly::univariate::DensePolynomial;
use ark_poly_commit::marlin_pc::MarlinKZG10;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, SerializationError};
use zkp_curve25519::Curve25519 as G;

type E = Bls12_381;
type PC = MarlinKZG10<Bls12_381, DensePolynomial<Fr>>;

macro_rules! codec {
    ($($m:ident: $t:ty;)*) => { $(
        pub mod $m {
            use super::*;
            type T = $t;
            pub fn root_put(value: &T, writer: &mut Vec<u8>) -> Result<(), SerializationError> {
                CanonicalSerialize::serialize(value, writer)
            }
            pub fn root_put_uncompressed(value: &T, writer: &mut Vec<u8>) -> Result<(), SerializationError> {
                CanonicalSerialize::serialize_uncompressed(value, writer)
            }
            pub fn root_put_unchecked(value: &T, writer: &mut Vec<u8>) -> Result<(), SerializationError> {
                CanonicalSerialize::serialize_unchecked(value, writer)
            }
            pub fn root_get(reader: &mut &[u8]) -> Result<T, SerializationError> {
                <T as CanonicalDeserialize>::deserialize(reader)
            }
            pub fn root_get_uncompressed(reader: &mut &[u8]) -> Result<T, SerializationError> {
                <T as CanonicalDeserialize>::deserialize_uncompressed(reader)
            }
            pub fn root_get_unchecked(reader: &mut &[u8]) -> Result<T, SerializationError> {
                <T as CanonicalDeserialize>::deserialize_unchecked(reader)
            }
        }
    )* };
}

codec! {
    r1cs_index: zkp_r1cs::Index;
    curve25519_point: zkp_curve25519::Curve25519Point;
    groth16_proof: zkp_groth16::Proof<E>;
    groth16_verify_key: zkp_groth16::VerifyKey<E>;
    groth16_parameters: zkp_groth16::Parameters<E>;
    bulletproofs_generators: zkp_bulletproofs::Generators<G>;
    bulletproofs_circuit: zkp_bulletproofs::R1csCircuit<G>;
    bulletproofs_proof: zkp_bulletproofs::Proof<G>;
    marlin_verifier_key: zkp_marlin::IndexVerifierKey<E>;
    marlin_proof: zkp_marlin::Proof<E>;
    plonk_verifier_key: zkp_plonk::VerifierKey<Fr, PC>;
    plonk_proof: zkp_plonk::Proof<Fr, PC>;
    spartan_nizk_parameters: zkp_spartan::nizk::Parameters<G>;
    spartan_nizk_prove_key: zkp_spartan::nizk::ProveKey<G>;
    spartan_nizk_verify_key: zkp_spartan::nizk::VerifyKey<G>;
    spartan_nizk_proof: zkp_spartan::data_structure::NIZKProof<G>;
    spartan_snark_parameters: zkp_spartan::snark::Parameters<G>;
    spartan_snark_prove_key: zkp_spartan::snark::ProveKey<G>;
    spartan_snark_verify_key: zkp_spartan::snark::VerifyKey<G>;
    spartan_snark_proof: zkp_spartan::data_structure::SNARKProof<G>;
    spartan_sumcheck_step: zkp_spartan::data_structure::SumCheckEvalProof<G>;
    spartan_layer_proof: zkp_spartan::data_structure::LayerProductCircuitProof<G>;
    libra_sumcheck: zkp_libra::sumcheck::SumCheckProof<G>;
    libra_proof: zkp_libra::libra_zk_linear_gkr::ZKLinearGKRProof<G>;
    libra_layer_proof: zkp_libra::libra_zk_linear_gkr::ZKLayerProof<G>;
    libra_sumcheck_step: zkp_libra::sumcheck::SumCheckEvalProof<G>;
    libra_parameters: zkp_libra::params::Parameters<G>;
    hyrax_proof: zkp_hyrax::hyrax_proof::HyraxProof<G>;
    hyrax_sumcheck: zkp_hyrax::zk_sumcheck_proof::ZkSumcheckProof<G>;
    hyrax_parameters: zkp_hyrax::params::Parameters<G>;
}
