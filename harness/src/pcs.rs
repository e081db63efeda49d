//! Commitment schemes the checks run on: the repository's KZG scheme, and an ideal
//! scheme (a commitment is the evaluation table itself) that makes thousands of
//! pipeline cases affordable.
use ark_bls12_381::{Bls12_381, Fr};
use ark_poly::{DenseMultilinearExtension, MultilinearExtension};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use ark_std::rand::Rng;
use rand_chacha::rand_core::SeedableRng;
use std::borrow::Borrow;
use std::sync::{Arc, OnceLock};
use zk_sql::subroutines::{MultilinearKzgPCS, MultilinearProverParam, MultilinearVerifierParam, PCSError, PolynomialCommitmentScheme};
use zk_sql::transcript::IOPTranscript;

pub type E = Bls12_381;
pub type Kzg = MultilinearKzgPCS<E>;
pub type Dmle = DenseMultilinearExtension<Fr>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct MockPcs;

#[derive(Clone, Debug, PartialEq, Eq, CanonicalSerialize, CanonicalDeserialize, Default)]
pub struct MockComm { pub nv: u64, pub evals: Vec<Fr> }

fn bad(s: &str) -> PCSError { PCSError::InvalidParameters(s.to_string()) }

impl MockPcs {
    fn eval(c: &MockComm, point: &[Fr]) -> Option<Fr> {
        let nv = c.nv as usize;
        if point.len() < nv || c.evals.len() != 1 << nv { return None; }
        Dmle::from_evaluations_slice(nv, &c.evals).evaluate(&point[point.len() - nv..])
    }
}

impl PolynomialCommitmentScheme<E> for MockPcs {
    type ProverParam = u64;
    type VerifierParam = u64;
    type SRS = u64;
    type Commitment = MockComm;
    type Proof = MockComm;
    type BatchProof = Vec<Fr>;
    fn gen_srs_for_testing<R: Rng>(_: &mut R, n: usize) -> Result<u64, PCSError> { Ok(n as u64) }
    fn trim(srs: impl Borrow<u64>, _: Option<usize>, nv: Option<usize>) -> Result<(u64, u64), PCSError> {
        let n = nv.map(|x| x as u64).unwrap_or(*srs.borrow());
        Ok((n, n))
    }
    fn commit(pp: impl Borrow<u64>, poly: &Dmle) -> Result<MockComm, PCSError> {
        if poly.num_vars as u64 > *pp.borrow() { return Err(bad("too large")); }
        // like the real scheme, independent of variables added in front
        let (mut nv, mut ev) = (poly.num_vars, poly.evaluations.clone());
        while nv > 0 && ev.chunks(2).all(|c| c[0] == c[1]) {
            ev = ev.iter().step_by(2).copied().collect();
            nv -= 1;
        }
        Ok(MockComm { nv: nv as u64, evals: ev })
    }
    fn open(_: impl Borrow<u64>, poly: &Dmle, point: &[Fr]) -> Result<(MockComm, Fr), PCSError> {
        let v = poly.evaluate(point).ok_or_else(|| bad("point"))?;
        Ok((MockComm::default(), v))
    }
    fn verify(_: &u64, c: &MockComm, point: &[Fr], value: &Fr, _: &MockComm) -> Result<bool, PCSError> {
        Ok(Self::eval(c, point) == Some(*value))
    }
    fn multi_open(_: impl Borrow<u64>, polys: &[Arc<Dmle>], points: &[Vec<Fr>], evals: &[Fr], t: &mut IOPTranscript<Fr>) -> Result<Vec<Fr>, PCSError> {
        if polys.is_empty() || polys.len() != points.len() || polys.len() != evals.len() { return Err(bad("lengths")); }
        for e in evals { t.append_field_element(b"mock eval", e)?; }
        Ok(evals.to_vec())
    }
    fn batch_verify(_: &u64, comms: &[MockComm], points: &[Vec<Fr>], proof: &Vec<Fr>, t: &mut IOPTranscript<Fr>) -> Result<bool, PCSError> {
        if comms.is_empty() || comms.len() != points.len() || comms.len() != proof.len() { return Ok(false); }
        for e in proof { t.append_field_element(b"mock eval", e)?; }
        Ok(comms.iter().zip(points).zip(proof).all(|((c, p), e)| Self::eval(c, p) == Some(*e)))
    }
}

pub trait TestPcs: PolynomialCommitmentScheme<E> + 'static {
    const NAME: &'static str;
    fn params() -> (Self::ProverParam, Self::VerifierParam);
    /// alter one commitment
    fn tamper_comm(c: &Self::Commitment, other: &Self::Commitment) -> Self::Commitment;
    /// alter one part of a batch opening; `None` when nothing changed
    fn tamper_batch(p: &Self::BatchProof, which: u64, i: usize, d: Fr) -> Option<(Self::BatchProof, String)>;
    /// another shape of a batch opening
    fn misshape(_: &mut crate::gen::Gen, _: &Self::BatchProof) -> Option<(Self::BatchProof, String)> { None }
}
pub const KZG_NV: usize = 9;
impl TestPcs for MockPcs {
    const NAME: &'static str = "ideal";
    fn params() -> (u64, u64) { (24, 24) }
    fn tamper_comm(c: &MockComm, _: &MockComm) -> MockComm {
        let mut c = c.clone();
        c.evals[0] += Fr::from(1u64);
        c
    }
    fn tamper_batch(p: &Vec<Fr>, which: u64, i: usize, d: Fr) -> Option<(Vec<Fr>, String)> {
        let mut q = p.clone();
        let i = i % q.len();
        if which % 3 == 0 { q.pop(); Some((q, "opening shortened".into())) } else { q[i] += d; Some((q, format!("opened value {i} altered"))) }
    }
}
static KZG: OnceLock<(MultilinearProverParam<E>, MultilinearVerifierParam<E>)> = OnceLock::new();
impl TestPcs for Kzg {
    const NAME: &'static str = "kzg";
    fn params() -> (MultilinearProverParam<E>, MultilinearVerifierParam<E>) {
        KZG.get_or_init(|| {
            let mut rng = rand_chacha::ChaCha20Rng::seed_from_u64(77);
            let srs = Kzg::gen_srs_for_testing(&mut rng, KZG_NV).unwrap();
            Kzg::trim(&srs, None, Some(KZG_NV)).unwrap()
        }).clone()
    }
    fn misshape(g: &mut crate::gen::Gen, p: &Self::BatchProof) -> Option<(Self::BatchProof, String)> {
        let mut q = p.clone();
        let w = crate::props::malformed::misshape_batch(g, &mut q);
        Some((q, w))
    }
    fn tamper_comm(c: &Self::Commitment, other: &Self::Commitment) -> Self::Commitment {
        use ark_ec::{AffineRepr, CurveGroup};
        let d = if other == c { ark_bls12_381::G1Affine::generator() } else { other.0 };
        zk_sql::subroutines::Commitment((c.0 + d).into_affine())
    }
    fn tamper_batch(p: &Self::BatchProof, which: u64, i: usize, d: Fr) -> Option<(Self::BatchProof, String)> {
        use ark_ec::{AffineRepr, CurveGroup};
        let mut q = p.clone();
        let what = match which % 4 {
            0 => { let n = q.f_i_eval_at_point_i.len(); q.f_i_eval_at_point_i[i % n] += d; format!("opened value {} altered", i % n) }
            1 => { let m = &mut q.verif_sum_check_proof_mut().proofs; let n = m.len(); let m = m[i % n].verif_evaluations_mut(); m[0] += d; m[1] -= d; format!("opening message {} altered", i % n) }
            2 => { let z = &mut q.verif_sum_check_proof_mut().point; let n = z.len(); z[i % n] += d; "opening point altered".into() }
            _ => { let w = &mut q.verif_g_prime_proof_mut().proofs; let n = w.len(); w[i % n] = (w[i % n] + ark_bls12_381::G1Affine::generator() * d).into_affine(); "opening quotient altered".into() }
        };
        if q == *p { None } else { Some((q, what)) }
    }
}
