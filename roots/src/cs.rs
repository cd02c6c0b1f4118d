//! A circuit that allocates one variable of each kind and states one constraint that is as
//! long as it likes, for the constraint systems that the provers and the key generators bring.
use ark_bls12_381::{Bls12_381 as E, Fr};
use ark_ff::PrimeField;
use rand::rngs::ThreadRng as R;
use zkp_r1cs::{ConstraintSynthesizer, ConstraintSystem, LinearCombination, SynthesisError};

pub struct Wide<F: PrimeField> {
    pub a: LinearCombination<F>,
    pub b: LinearCombination<F>,
    pub c: LinearCombination<F>,
    pub w: F,
    pub x: F,
}

impl<F: PrimeField> ConstraintSynthesizer<F> for Wide<F> {
    fn generate_constraints<CS: ConstraintSystem<F>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        let Wide { a, b, c, w, x } = self;
        let mut cs = cs.ns(|| "n");
        cs.alloc(|| "w", || Ok(w))?;
        cs.alloc_input(|| "x", || Ok(x))?;
        cs.enforce(|| "e", |_| a, |_| b, |_| c);
        Ok(())
    }
}

pub fn root_cs_groth16_key(circuit: Wide<Fr>, rng: &mut R) -> bool {
    zkp_groth16::generate_random_parameters::<E, _, _>(circuit, rng).is_ok()
}
pub fn root_cs_groth16_prove(params: &zkp_groth16::Parameters<E>, circuit: Wide<Fr>, rng: &mut R) -> bool {
    zkp_groth16::create_random_proof::<E, _, _>(params, circuit, rng).is_ok()
}
pub fn root_cs_bulletproofs_prove(circuit: Wide<Fr>, rng: &mut R) -> bool {
    zkp_bulletproofs::create_random_proof::<E, _, _>(circuit, rng).is_ok()
}
pub fn root_cs_marlin_key(srs: &zkp_marlin::UniversalParams<E>, circuit: Wide<Fr>) -> bool {
    zkp_marlin::index::<E, _>(srs, circuit).is_ok()
}
pub fn root_cs_marlin_prove(ipk: &zkp_marlin::IndexProverKey<'_, E>, circuit: Wide<Fr>, rng: &mut R) -> bool {
    zkp_marlin::create_random_proof::<E, _, _>(ipk, circuit, rng).is_ok()
}
pub fn root_cs_spartan_snark_key(circuit: Wide<Fr>, rng: &mut R) -> bool {
    zkp_spartan::snark::generate_random_parameters::<E, _, _>(circuit, rng).is_ok()
}
pub fn root_cs_spartan_snark_prove(pk: &zkp_spartan::snark::ProveKey<E>, circuit: Wide<Fr>, h: Fr, rng: &mut R) -> bool {
    zkp_spartan::snark::create_random_proof::<E, _, _>(pk, circuit, h, h, h, rng).is_ok()
}
pub fn root_cs_spartan_nizk_key(circuit: Wide<Fr>, rng: &mut R) -> bool {
    zkp_spartan::nizk::generate_random_parameters::<E, _, _>(circuit, rng).is_ok()
}
pub fn root_cs_spartan_nizk_prove(pk: &zkp_spartan::nizk::ProveKey<E>, circuit: Wide<Fr>, h: Fr, rng: &mut R) -> bool {
    zkp_spartan::nizk::create_random_proof::<E, _, _>(pk, circuit, h, h, rng).is_ok()
}

// the composer of PLONK has gates instead of constraints; its variables are named by the rule
pub fn root_cs_plonk_add(vl: Fr, vr: Fr, vo: Fr, vd: Fr, ql: Fr, qr: Fr, qd: Fr, qc: Fr, pi: Fr) -> usize {
    let mut cs = zkp_plonk::Composer::<Fr>::new();
    let (l, r, o, d) = (cs.alloc_and_assign(vl), cs.alloc_and_assign(vr), cs.alloc_and_assign(vo), cs.alloc_and_assign(vd));
    cs.create_add_gate((l, ql), (r, qr), o, Some((d, qd)), qc, pi);
    cs.size()
}
pub fn root_cs_plonk_mul(vl: Fr, vr: Fr, vo: Fr, vd: Fr, qm: Fr, qd: Fr, qc: Fr, pi: Fr) -> usize {
    let mut cs = zkp_plonk::Composer::<Fr>::new();
    let (l, r, o, d) = (cs.alloc_and_assign(vl), cs.alloc_and_assign(vr), cs.alloc_and_assign(vo), cs.alloc_and_assign(vd));
    cs.create_mul_gate(l, r, o, Some((d, qd)), qm, qc, pi);
    cs.size()
}
pub fn root_cs_plonk_constant(vl: Fr, qc: Fr, pi: Fr) -> usize {
    let mut cs = zkp_plonk::Composer::<Fr>::new();
    let l = cs.alloc_and_assign(vl);
    cs.constrain_to_constant(l, qc, pi);
    cs.size()
}
pub fn root_cs_plonk_equal(vl: Fr, vr: Fr) -> usize {
    let mut cs = zkp_plonk::Composer::<Fr>::new();
    let (l, r) = (cs.alloc_and_assign(vl), cs.alloc_and_assign(vr));
    cs.assert_equal(l, r);
    cs.size()
}
