//! Roots for the circuit gadgets: every gadget against one recording constraint system.
//! The engine intercepts `Rec::{alloc, alloc_input, enforce, one}`.
use ark_bls12_381::Fr;
use zkp_gadgets::algebra::boolean::{
    field_into_allocated_bits_le, field_into_boolean_vec_le, u64_into_boolean_vec_le, AllocatedBit, Boolean,
};
use zkp_gadgets::algebra::fr::AllocatedFr;
use zkp_gadgets::algebra::uint32::UInt32;
use zkp_gadgets::hashes::abstract_hash::AbstractHash;
use zkp_gadgets::lookup::table::{lookup1_x, lookup2_x, lookup2_xy, lookup3_x, lookup3_xy};
use zkp_gadgets::merkletree::cbmt_constraints::MerkleProofGadget;
use zkp_gadgets::operator::multieq::MultiEq;
use zkp_gadgets::operator::rangeproof::RangeProof;
use zkp_r1cs::{ConstraintSynthesizer, ConstraintSystem, LinearCombination, SynthesisError, Variable};

type Res<T> = Result<T, SynthesisError>;

pub struct Rec;

impl ConstraintSystem<Fr> for Rec {
    type Root = Self;

    fn one() -> Variable {
        unimplemented!()
    }
    fn alloc<FN, A, AR>(&mut self, annotation: A, f: FN) -> Result<Variable, SynthesisError>
    where
        FN: FnOnce() -> Result<Fr, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        f()?;
        unimplemented!()
    }
    fn alloc_input<FN, A, AR>(&mut self, annotation: A, f: FN) -> Result<Variable, SynthesisError>
    where
        FN: FnOnce() -> Result<Fr, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        f()?;
        unimplemented!()
    }
    fn enforce<A, AR, LA, LB, LC>(&mut self, annotation: A, a: LA, b: LB, c: LC)
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
        LA: FnOnce(LinearCombination<Fr>) -> LinearCombination<Fr>,
        LB: FnOnce(LinearCombination<Fr>) -> LinearCombination<Fr>,
        LC: FnOnce(LinearCombination<Fr>) -> LinearCombination<Fr>,
    {
        a(LinearCombination::zero());
        b(LinearCombination::zero());
        c(LinearCombination::zero());
    }
    fn push_namespace<NR, N>(&mut self, name_fn: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
    }
    fn pop_namespace(&mut self) {}
    fn get_root(&mut self) -> &mut Self::Root {
        self
    }
    fn num_constraints(&self) -> usize {
        0
    }
}

// ---- booleans
pub fn root_bit_alloc(cs: &mut Rec, value: Option<bool>) -> Res<AllocatedBit> {
    AllocatedBit::alloc::<Fr, _>(cs, value)
}
pub fn root_bit_alloc_input(cs: &mut Rec, value: Option<bool>) -> Res<AllocatedBit> {
    AllocatedBit::alloc_input::<Fr, _>(cs, value)
}
pub fn root_bit_alloc_conditionally(cs: &mut Rec, value: Option<bool>, a: &AllocatedBit) -> Res<AllocatedBit> {
    AllocatedBit::alloc_conditionally::<Fr, _>(cs, value, a)
}
pub fn root_bit_xor(cs: &mut Rec, a: &AllocatedBit, b: &AllocatedBit) -> Res<AllocatedBit> {
    AllocatedBit::xor::<Fr, _>(cs, a, b)
}
pub fn root_bit_and(cs: &mut Rec, a: &AllocatedBit, b: &AllocatedBit) -> Res<AllocatedBit> {
    AllocatedBit::and::<Fr, _>(cs, a, b)
}
pub fn root_bit_and_not(cs: &mut Rec, a: &AllocatedBit, b: &AllocatedBit) -> Res<AllocatedBit> {
    AllocatedBit::and_not::<Fr, _>(cs, a, b)
}
pub fn root_bit_nor(cs: &mut Rec, a: &AllocatedBit, b: &AllocatedBit) -> Res<AllocatedBit> {
    AllocatedBit::nor::<Fr, _>(cs, a, b)
}
pub fn root_bool_not(a: &Boolean) -> Boolean {
    a.not()
}
pub fn root_bool_lc(a: &Boolean, coeff: Fr) -> LinearCombination<Fr> {
    a.lc(Rec::one(), coeff)
}
pub fn root_bool_xor(cs: &mut Rec, a: &Boolean, b: &Boolean) -> Res<Boolean> {
    Boolean::xor::<Fr, _>(cs, a, b)
}
pub fn root_bool_and(cs: &mut Rec, a: &Boolean, b: &Boolean) -> Res<Boolean> {
    Boolean::and::<Fr, _>(cs, a, b)
}
pub fn root_bool_ch(cs: &mut Rec, a: &Boolean, b: &Boolean, c: &Boolean) -> Res<Boolean> {
    Boolean::sha256_ch::<Fr, _>(cs, a, b, c)
}
pub fn root_bool_maj(cs: &mut Rec, a: &Boolean, b: &Boolean, c: &Boolean) -> Res<Boolean> {
    Boolean::sha256_maj::<Fr, _>(cs, a, b, c)
}
pub fn root_bool_equal(cs: &mut Rec, a: &Boolean, b: &Boolean) -> Res<()> {
    Boolean::enforce_equal::<Fr, _>(cs, a, b)
}
pub fn root_u64_bits(cs: &mut Rec, value: Option<u64>) -> Res<Vec<Boolean>> {
    u64_into_boolean_vec_le::<Fr, _>(cs, value)
}
pub fn root_field_bools(cs: &mut Rec, value: Option<Fr>) -> Res<Vec<Boolean>> {
    field_into_boolean_vec_le::<Fr, _>(cs, value)
}
pub fn root_field_bits(cs: &mut Rec, value: Option<Fr>) -> Res<Vec<AllocatedBit>> {
    field_into_allocated_bits_le::<Fr, _>(cs, value)
}

// ---- field elements
pub fn root_fr_alloc(cs: &mut Rec, value: Option<Fr>) -> Res<AllocatedFr<Fr>> {
    AllocatedFr::alloc(cs, || value.ok_or(SynthesisError::AssignmentMissing))
}
pub fn root_fr_inputize(cs: &mut Rec, a: &AllocatedFr<Fr>) -> Res<()> {
    a.inputize(cs)
}
pub fn root_fr_nonzero(cs: &mut Rec, a: &AllocatedFr<Fr>) -> Res<()> {
    a.isnonzero(cs)
}
pub fn root_rangeproof(cs: &mut Rec, circuit: RangeProof<Fr>) -> Res<()> {
    circuit.generate_constraints(cs)
}
pub fn root_lookup1_x(cs: &mut Rec, bits: &Boolean, table: &[Fr]) -> Res<AllocatedFr<Fr>> {
    lookup1_x(cs, bits, table)
}
pub fn root_lookup2_x(cs: &mut Rec, bits: &[Boolean], table: &[Fr]) -> Res<AllocatedFr<Fr>> {
    lookup2_x(cs, bits, table)
}
pub fn root_lookup2_xy(cs: &mut Rec, bits: &[Boolean], table: &[(Fr, Fr)]) -> Res<(AllocatedFr<Fr>, AllocatedFr<Fr>)> {
    lookup2_xy(cs, bits, table)
}
pub fn root_lookup3_x(cs: &mut Rec, bits: &[Boolean], table: &[Fr]) -> Res<AllocatedFr<Fr>> {
    lookup3_x(cs, bits, table)
}
pub fn root_lookup3_xy(cs: &mut Rec, bits: &[Boolean], table: &[(Fr, Fr)]) -> Res<(AllocatedFr<Fr>, AllocatedFr<Fr>)> {
    lookup3_xy(cs, bits, table)
}

// ---- words
pub fn root_u32_alloc(cs: &mut Rec, value: Option<u32>) -> Res<UInt32> {
    UInt32::alloc::<Fr, _>(cs, value)
}
pub fn root_u32_xor(cs: &mut Rec, a: &UInt32, b: &UInt32) -> Res<UInt32> {
    a.xor::<Fr, _>(cs, b)
}
pub fn root_u32_ch(cs: &mut Rec, a: &UInt32, b: &UInt32, c: &UInt32) -> Res<UInt32> {
    UInt32::sha256_ch::<Fr, _>(cs, a, b, c)
}
pub fn root_u32_maj(cs: &mut Rec, a: &UInt32, b: &UInt32, c: &UInt32) -> Res<UInt32> {
    UInt32::sha256_maj::<Fr, _>(cs, a, b, c)
}
pub fn root_u32_addmany(cs: &mut MultiEq<Fr, Rec>, operands: &[UInt32]) -> Res<UInt32> {
    UInt32::addmany::<Fr, Rec, _>(cs.ns(|| "addmany"), operands)
}
pub fn root_multieq(
    cs: &mut Rec,
    n: (usize, usize, usize),
    l: (LinearCombination<Fr>, LinearCombination<Fr>, LinearCombination<Fr>),
    r: (LinearCombination<Fr>, LinearCombination<Fr>, LinearCombination<Fr>),
) -> Res<()> {
    let mut eq = MultiEq::new(cs);
    eq.enforce_equal(n.0, &l.0, &r.0);
    eq.enforce_equal(n.1, &l.1, &r.1);
    eq.enforce_equal(n.2, &l.2, &r.2);
    Ok(())
}

// ---- hashes
pub fn root_sha256(cs: &mut Rec, input: &[Boolean]) -> Res<Vec<Boolean>> {
    zkp_gadgets::hashes::sha256::sha256::<Fr, _>(cs, input)
}
pub fn root_blake2s(cs: &mut Rec, input: &[Boolean], personalization: &[u8]) -> Res<Vec<Boolean>> {
    zkp_gadgets::hashes::blake2s::blake2s::<Fr, _>(cs, input, personalization)
}
pub fn root_mimc(cs: &mut Rec, input: Option<&[u8]>) -> Res<Option<Fr>> {
    zkp_gadgets::hashes::mimc::mimc::<Fr, _>(cs, input)
}
pub fn root_poseidon(cs: &mut Rec, input: &[u8]) -> Res<Fr> {
    zkp_gadgets::hashes::poseidon::poseidon::<Fr, _>(cs, input)
}
pub fn root_rescue(cs: &mut Rec, input: &[u8]) -> Res<Fr> {
    zkp_gadgets::hashes::rescue::rescue::<Fr, _>(cs, input)
}
type Mimc = zkp_gadgets::hashes::mimc::AbstractHashMimc<Fr>;
type Poseidon = zkp_gadgets::hashes::poseidon::AbstractHashPoseidon<Fr>;
type Rescue = zkp_gadgets::hashes::rescue::AbstractHashRescue<Fr>;
type Sha = zkp_gadgets::hashes::sha256::AbstractHashSha256<Fr>;
type Out<H> = <H as AbstractHash<Fr>>::Output;
pub fn root_hash_mimc(cs: &mut Rec, left: &Out<Mimc>, right: &Out<Mimc>) -> Res<Out<Mimc>> {
    Mimc::hash_enforce(cs, &[left, right])
}
pub fn root_hash_poseidon(cs: &mut Rec, left: &Out<Poseidon>, right: &Out<Poseidon>) -> Res<Out<Poseidon>> {
    Poseidon::hash_enforce(cs, &[left, right])
}
pub fn root_hash_rescue(cs: &mut Rec, left: &Out<Rescue>, right: &Out<Rescue>) -> Res<Out<Rescue>> {
    Rescue::hash_enforce(cs, &[left, right])
}
pub fn root_hash_sha256(cs: &mut Rec, left: &Out<Sha>, right: &Out<Sha>) -> Res<Out<Sha>> {
    Sha::hash_enforce(cs, &[left, right])
}
pub fn root_merkle_mimc(cs: &mut Rec, index: u32, lemmas: Vec<Out<Mimc>>, root: Out<Mimc>, leaf: Out<Mimc>) -> Res<()> {
    MerkleProofGadget::<u32, Fr, Mimc>::new(index, lemmas).set_membership(cs, root, leaf)
}

// ---- circuits of the command line tool
pub fn root_cli_mini(cs: &mut Rec, circuit: crate::cli_circuits::mini::Mini<Fr>) -> Res<()> {
    circuit.generate_constraints(cs)
}
pub fn root_cli_hash(cs: &mut Rec, circuit: crate::cli_circuits::hash::Hash<Fr>) -> Res<()> {
    circuit.generate_constraints(cs)
}
